// C11: asymmetric decryption returns exactly what was encrypted, and nothing else decrypts to it.
#include "ops.hpp"
namespace {
std::map<sa_elliptic_curve, std::vector<EKey>> g_ec;
const sa_elliptic_curve PC[] = {SA_ELLIPTIC_CURVE_NIST_P192, SA_ELLIPTIC_CURVE_NIST_P224, SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P384,
        SA_ELLIPTIC_CURVE_NIST_P521};
void init() {
    Rng r(11);
    ops_warmup(r);
    for (auto c : PC)
        for (int i = 0; i < 3; i++)
            g_ec[c].push_back(ec_generate(r, c));
}
struct Scheme {
    sa_cipher_algorithm a;
    size_t size = 0;     // key size in bytes
    sa_elliptic_curve c{};
    const EKey* k = nullptr;
    sa_digest_algorithm d = SA_DIGEST_ALGORITHM_SHA1, m = SA_DIGEST_ALGORITHM_SHA1;
    Bytes label;
    bool ec() const { return a == SA_CIPHER_ALGORITHM_EC_ELGAMAL; }
    bool oaep() const { return a == SA_CIPHER_ALGORITHM_RSA_OAEP; }
    size_t in_len() const { return ec() ? 4 * size : size; }
    size_t max_msg() const { return oaep() ? size - 2 * digest_len(d) - 2 : size - 11; }
    Bytes msg(Rng& r) const {
        if (ec())
            return elgamal_plain(nullptr, c, r);
        size_t mx = max_msg();
        Bytes b = r.bytes(r.pick({(size_t) 0, mx, (size_t) 1, (size_t) 16, (size_t) r.below(mx + 1), (size_t) r.below(mx + 1), (size_t) r.below(mx + 1)}) % (mx + 1));
        if (!b.empty() && r.chance(25))
            b[0] = 0;
        if (!b.empty() && r.chance(15))
            b.back() = 0;
        if (r.chance(5))
            std::fill(b.begin(), b.end(), 0);
        return b;
    }
    Bytes enc(EVP_PKEY* k2, Rng& r, const Bytes& m_) const {
        return ec() ? elgamal_encrypt(k2, c, m_, r) : rsa_encrypt(k2, oaep(), ref_md(d), ref_md(m), &label, m_);
    }
};
std::string name(const Scheme& s) {
    return s.ec() ? strf("elgamal:%s", curve_name(s.c)) : s.oaep() ? strf("oaep:%zu", s.size) : strf("pkcs1v15:%zu", s.size);
}
sa_crypto_cipher_context open(Sess& s, const Scheme& sc, sa_key k) {
    CParams p;
    sa_crypto_cipher_context c = INVALID_HANDLE;
    p.oaep = {sc.d, sc.m, sc.label.empty() ? nullptr : (void*) sc.label.data(), sc.label.size()};
    sa_status st = SA(s, crypto_cipher_init, &c, sc.a, SA_CIPHER_MODE_DECRYPT, k, sc.oaep() ? &p.oaep : nullptr);
    if (st != SA_STATUS_OK)
        viol("init-refused", "%s: opening the context gave %s", name(sc).c_str(), status_name(st));
    return c;
}
// Decrypts; out has what was returned
sa_status dec(Sess& s, Rng& r, const Scheme& sc, sa_crypto_cipher_context c, const Bytes& ct, Bytes* out) {
    size_t off = r.chance(30) ? r.below(40) : 0, ioff = r.chance(30) ? r.below(40) : 0;
    size_t cap = sc.size + (r.coin() ? 0 : r.below(30));
    GBuf o(off + cap), i(cat({r.bytes(ioff), ct, r.bytes(r.chance(30) ? r.below(20) : 0)}));
    Bytes before = i.get();
    if (r.chance(25)) {
        size_t q = ct.size();
        sa_buffer ib = clear_buf(i.p, i.n, ioff);
        sa_status st = SA(s, crypto_cipher_process, nullptr, c, &ib, &q);
        if (st != SA_STATUS_OK || q > sc.size || ib.context.clear.offset != ioff)
            viol("size-query", "%s: the size query gave %s, %zu bytes", name(sc).c_str(), status_name(st), q);
    }
    sa_buffer ob = clear_buf(o.p, o.n, off), ib = clear_buf(i.p, i.n, ioff);
    size_t len = ct.size();
    sa_status st = SA(s, crypto_cipher_process, &ob, c, &ib, &len);
    if (i.get() != before)
        viol("input-changed", "%s: the ciphertext was changed", name(sc).c_str());
    if (st != SA_STATUS_OK) {
        if (o.get() != Bytes(o.n, 0xA5))
            viol("refused-written", "%s: a refused decryption (%s) wrote to its output", name(sc).c_str(), status_name(st));
        return st;
    }
    if (len > sc.size || ob.context.clear.offset != off + len || ib.context.clear.offset != ioff + ct.size())
        viol("lengths", "%s: %zu bytes, offsets out %zu from %zu, in %zu from %zu", name(sc).c_str(), len, ob.context.clear.offset, off,
                ib.context.clear.offset, ioff);
    for (size_t j = 0; j < off; j++)
        if (o.p[j] != 0xA5)
            viol("written-before", "%s: a byte before the output offset was written", name(sc).c_str());
    *out = o.get(off, len);
    return st;
}
Bytes add_be(const Bytes& a, BIGNUM* n) {   // a + n in as many bytes, or empty when it does not fit
    BIGNUM* x = BN_bin2bn(a.data(), (int) a.size(), nullptr);
    BN_add(x, x, n);
    Bytes o(a.size());
    bool ok = BN_bn2binpad(x, o.data(), (int) o.size()) >= 0;
    BN_free(x);
    return ok ? o : Bytes();
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    Scheme sc;
    switch (r.below(3)) {
        case 0:
            sc.a = SA_CIPHER_ALGORITHM_EC_ELGAMAL;
            sc.c = r.pick(PC);
            sc.size = curve_size(sc.c);
            sc.k = &g_ec[sc.c][r.below(3)];
            break;
        case 1: sc.a = SA_CIPHER_ALGORITHM_RSA_PKCS1V15; break;
        default:
            sc.a = SA_CIPHER_ALGORITHM_RSA_OAEP;
            sc.m = DIGESTS[r.below(4)];
            if (r.coin())
                sc.label = r.bytes(r.pick({1, 8, 16, 20, 32, 64, 300, 1000}));
            break;
    }
    if (!sc.ec()) {
        sc.size = r.pick({128, 128, 128, 256, 256, 384, 512});
        sc.k = &rsa_pool(sc.size, r.below(rsa_pool_count(sc.size)));
        if (sc.oaep())
            do
                sc.d = DIGESTS[r.below(4)];
            while (sc.size < 2 * digest_len(sc.d) + 2);
    }
    sa_key k = sc.ec() ? must_ec(s, *sc.k) : must_rsa(s, *sc.k);
    sa_crypto_cipher_context c = open(s, sc, k);
    Finally f{[&] {
        SA(s, crypto_cipher_release, c);
        SA(s, key_release, k);
    }};
    std::string nm = name(sc);
    size_t n = r.range(2, sc.size >= 384 ? 3 : 6);
    for (size_t i = 0; i < n; i++) {
        Bytes m = sc.msg(r), ct = sc.enc(sc.k->pkey, r, m), out;
        // something that is not this ciphertext first: it must not yield the message, nor disturb the context
        if (r.chance(75)) {
            Bytes x = ct;
            std::string what;
            sa_crypto_cipher_context c2 = INVALID_HANDLE;
            Scheme other = sc;
            bool refuse = sc.a != SA_CIPHER_ALGORITHM_RSA_PKCS1V15;   // a v1.5 padding can be right by chance
            switch (r.below(9)) {
                case 0: what = "altered", x[r.below(x.size())] ^= (uint8_t) (1u << r.below(8)); break;
                case 1: what = "altered-end", x[r.coin() ? 0 : x.size() - 1] ^= (uint8_t) r.range(1, 255); break;
                case 2: what = "length", refuse = true, x.resize(r.pick({x.size() - 1, x.size() + 1, x.size() / 2, (size_t) 0, x.size() * 2, (size_t) r.below(x.size()),
                        (size_t) 16})); break;
                case 3: {
                    what = "other-key";
                    const EKey* o2 = sc.k;
                    while (o2 == sc.k)
                        o2 = sc.ec() ? &g_ec[sc.c][r.below(3)] : &rsa_pool(sc.size, r.below(rsa_pool_count(sc.size)));
                    x = sc.enc(o2->pkey, r, m);
                    refuse = refuse && !sc.ec();   // ElGamal gives some other point
                    break;
                }
                case 4:
                    if (!sc.oaep())
                        continue;
                    what = "other-label";
                    if (other.label.empty())
                        other.label = r.bytes(r.range(1, 20));
                    else if (r.coin())
                        other.label[r.below(other.label.size())] ^= 1;
                    else
                        other.label.resize(r.coin() ? other.label.size() - 1 : 0);
                    break;
                case 5:
                    if (!sc.oaep())
                        continue;
                    what = r.coin() ? "other-digest" : "other-mgf1";
                    if (what == "other-digest") {
                        do
                            other.d = DIGESTS[r.below(4)];
                        while (other.d == sc.d || other.size < 2 * digest_len(other.d) + 2);
                    } else
                        do
                            other.m = DIGESTS[r.below(4)];
                        while (other.m == sc.m);
                    break;
                case 6: what = "random", refuse = refuse && true, x = r.bytes(x.size()); break;
                case 7: {
                    BIGNUM* mod = nullptr;
                    what = "not-reduced", refuse = true;
                    if (sc.ec()) {
                        EC_GROUP* g = EC_GROUP_new_by_curve_name(OBJ_txt2nid(curve_name(sc.c)));
                        mod = BN_new();
                        EC_GROUP_get_curve(g, mod, nullptr, nullptr, nullptr);
                        EC_GROUP_free(g);
                        size_t at = r.below(4) * sc.size;
                        Bytes y = add_be(Bytes(x.begin() + (long) at, x.begin() + (long) (at + sc.size)), mod);
                        if (y.empty())
                            x.clear();
                        else
                            std::copy(y.begin(), y.end(), x.begin() + (long) at);
                    } else {
                        EVP_PKEY_get_bn_param(sc.k->pkey, "n", &mod);
                        x = add_be(x, mod);
                    }
                    BN_free(mod);
                    if (x.empty())
                        continue;
                    break;
                }
                default:
                    if (sc.ec()) {   // the message would be the point at infinity
                        what = "infinity", refuse = true;
                        EC_GROUP* g = EC_GROUP_new_by_curve_name(OBJ_txt2nid(curve_name(sc.c)));
                        EC_POINT *p = EC_POINT_new(g), *q = EC_POINT_new(g);
                        Bytes o1(1, 4);
                        o1.insert(o1.end(), x.begin(), x.begin() + (long) (2 * sc.size));
                        HCHECK(EC_POINT_oct2point(g, p, o1.data(), o1.size(), nullptr) == 1);
                        BIGNUM* d = nullptr;
                        EVP_PKEY_get_bn_param(sc.k->pkey, "priv", &d);
                        HCHECK(EC_POINT_mul(g, q, nullptr, p, d, nullptr) == 1);
                        Bytes o2(2 * sc.size + 1);
                        HCHECK(EC_POINT_point2oct(g, q, POINT_CONVERSION_UNCOMPRESSED, o2.data(), o2.size(), nullptr) == o2.size());
                        std::copy(o2.begin() + 1, o2.end(), x.begin() + (long) (2 * sc.size));
                        BN_free(d);
                        EC_POINT_free(p);
                        EC_POINT_free(q);
                        EC_GROUP_free(g);
                    } else {
                        what = "degenerate", x = Bytes(x.size(), r.coin() ? 0 : 255);
                        if (r.coin())
                            x.back() = 1;
                    }
                    break;
            }
            if (x == ct && what.substr(0, 5) != "other")
                continue;
            trace("%s message %zu, %s", nm.c_str(), m.size(), what.c_str());
            if (what == "other-label" || what == "other-digest" || what == "other-mgf1")
                c2 = open(s, other, k);
            sa_status st = dec(s, r, sc, c2 == INVALID_HANDLE ? c : c2, x, &out);
            if (c2 != INVALID_HANDLE)
                SA(s, crypto_cipher_release, c2);
            if (st == SA_STATUS_OK && (refuse || (out == m && m.size() >= 8)))
                viol("accepted:" + what, "%s, message of %zu bytes: a ciphertext that is not one of it (%s) was decrypted to %s", nm.c_str(), m.size(), what.c_str(),
                        hex(out).c_str());
            cov(strf("%s:%s", st == SA_STATUS_OK ? "garbage" : "refused", what.c_str()));
        }
        trace("%s message %zu", nm.c_str(), m.size());
        sa_status st = dec(s, r, sc, c, ct, &out);
        if (st != SA_STATUS_OK)
            viol("refused", "%s digest %d mgf1 %d label %zu: the ciphertext of %zu bytes was refused: %s", nm.c_str(), sc.d, sc.m, sc.label.size(), m.size(), status_name(st));
        if (out != m)
            viol("wrong", "%s digest %d mgf1 %d label %zu: decrypted %s (%zu bytes), the message was %s (%zu bytes)", nm.c_str(), sc.d, sc.m, sc.label.size(),
                    hex(out).c_str(), out.size(), hex(m).c_str(), m.size());
        cov("decrypted:" + nm);
        if (sc.oaep())
            cov(strf("oaep:%d:%d:%s", sc.d, sc.m, sc.label.empty() ? "nolabel" : "label"));
        if (m.empty())
            cov("empty:" + std::string(sc.oaep() ? "oaep" : "pkcs1v15"));
        if (!sc.ec() && m.size() == sc.max_msg())
            cov("longest:" + std::string(sc.oaep() ? "oaep" : "pkcs1v15"));
        if (sc.ec() && m[0] == 0)
            cov("elgamal-leading-zero");
        nontrivial(hash_bytes(ct.data(), ct.size()));
    }
    if (index % 2000 == 0)
        sample(strf("case seed %" PRIu64 ": %s", g_case_seed, nm.c_str()));
}
}   // namespace
Harness harness() {
    return {"sequences of decryptions on one context: messages of every length the scheme allows, mixed with altered, foreign, misparametrised and degenerate "
            "ciphertexts. Distinct: ciphertexts decrypted and compared",
            init, one, nullptr};
}
