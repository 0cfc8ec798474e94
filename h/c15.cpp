// C15: exchanged secrets agree with an independent peer; bad public values are refused.
#include "ops.hpp"
namespace {
struct Group { const char* name; BIGNUM *p, *g; size_t n; };
std::vector<Group> groups;
void init() {
    Rng r(15);
    ops_warmup(r);
    const DhGroup& d = dh_group();
    groups.push_back({"512", BN_bin2bn(d.p.data(), (int) d.p.size(), nullptr), BN_bin2bn(d.g.data(), (int) d.g.size(), nullptr), 64});
    const struct { const char* n; BIGNUM* (*f)(BIGNUM*); size_t z; } st[] = {{"modp768", BN_get_rfc2409_prime_768, 96}, {"modp1024", BN_get_rfc2409_prime_1024, 128},
            {"modp1536", BN_get_rfc3526_prime_1536, 192}, {"modp2048", BN_get_rfc3526_prime_2048, 256}};
    for (auto& x : st) {
        BIGNUM* g = BN_new();
        BN_set_word(g, 2);
        groups.push_back({x.n, x.f(nullptr), g, x.z});
    }
    BIGNUM* g = BN_new();
    BN_set_word(g, 2);
    groups.push_back({"modp4096", BN_get_rfc3526_prime_4096(nullptr), g, 512});
}
Bytes bn(const BIGNUM* b, size_t n) {
    Bytes o(n);
    HCHECK(BN_bn2binpad(b, o.data(), (int) n) == (int) n);
    return o;
}
EVP_PKEY* dh_key(const Group& g, const BIGNUM* pub, const BIGNUM* priv) {
    OSSL_PARAM_BLD* b = OSSL_PARAM_BLD_new();
    OSSL_PARAM_BLD_push_BN(b, "p", g.p);
    OSSL_PARAM_BLD_push_BN(b, "g", g.g);
    OSSL_PARAM_BLD_push_BN(b, "pub", pub);
    if (priv)
        OSSL_PARAM_BLD_push_BN(b, "priv", priv);
    OSSL_PARAM* pa = OSSL_PARAM_BLD_to_param(b);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(EVP_PKEY_DH, nullptr);
    EVP_PKEY* k = nullptr;
    HCHECK(EVP_PKEY_fromdata_init(c) == 1 && EVP_PKEY_fromdata(c, &k, EVP_PKEY_KEYPAIR, pa) == 1);
    EVP_PKEY_CTX_free(c);
    OSSL_PARAM_free(pa);
    OSSL_PARAM_BLD_free(b);
    return k;
}
// the library's public key, as numbers
BIGNUM* dh_pub_of(const Bytes& spki, const Group& g) {
    const uint8_t* p = spki.data();
    EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, (long) spki.size());
    if (!k)
        viol("dh-public-unreadable", "the public key of a DH key does not parse");
    BIGNUM *pub = nullptr, *P = nullptr;
    EVP_PKEY_get_bn_param(k, "pub", &pub);
    EVP_PKEY_get_bn_param(k, "p", &P);
    if (BN_cmp(P, g.p) != 0)
        viol("dh-group", "the DH key is in another group");
    BN_free(P);
    EVP_PKEY_free(k);
    return pub;
}
struct Peer { BIGNUM *pub, *priv; };
Peer dh_peer_of(Rng& r, const Group& g, BN_CTX* c) {
    Bytes e = r.bytes(32);
    BIGNUM *x = BN_bin2bn(e.data(), 32, nullptr), *y = BN_new();
    BN_mod_exp(y, g.g, x, g.p, c);
    return {y, x};
}
struct Exchange {
    Sess& s;
    Rng& r;
    sa_key k = INVALID_HANDLE;
    sa_status run(sa_key_exchange_algorithm a, sa_key priv, const Bytes& pub, void* pa = nullptr) {
        sa_rights ra = rights_all();
        k = INVALID_HANDLE;
        GBuf g(pub);
        return SA(s, key_exchange, &k, &ra, a, priv, g.p, g.n, pa);
    }
    void good(const char* what, sa_status st, const Bytes& expect, const char* how) {
        std::string why;
        if (st != SA_STATUS_OK)
            viol(strf("refused:%s", what), "a valid %s exchange (%s) gave %s", what, how, status_name(st));
        if (!sym_matches(s, k, expect, &why))
            viol(strf("wrong-secret:%s", what), "%s (%s): %s", what, how, why.c_str());
        SA(s, key_release, k);
        cov(strf("agreed:%s", what));
        if (expect[0] == 0)
            cov(strf("leading-zero:%s", what));
        nontrivial(hash_bytes(expect.data(), expect.size()));
    }
    void bad(const char* what, sa_status st, const char* how) {
        if (st == SA_STATUS_OK)
            viol(strf("accepted:%s:%s", what, how), "%s accepted a public value that is %s", what, how);
        if (k != INVALID_HANDLE) {
            sa_header h;
            if (SA(s, key_header, &h, k) == SA_STATUS_OK)
                viol(strf("key-after-refusal:%s", what), "a refused exchange returned a key");
        }
        cov(strf("refused:%s:%s", what, how));
    }
};
Bytes mangle(Rng& r, Bytes b, const char** how) {
    switch (r.below(4)) {
        case 0: *how = "empty"; return {};
        case 1: b.resize(r.below(b.size())); *how = "truncated"; return b;
        case 2: *how = "random bytes"; r.fill(b.data(), b.size()); b[0] = 0x31; return b;
        default: *how = "a wrong outer tag"; b[0] ^= (uint8_t) (1 << r.below(5)); return b;
    }
}
sa_key other_sym(Sess& s, Rng& r) { return must_sym(s, r.bytes(16)); }
void ecdh(Rng& r, Sess& s) {
    sa_elliptic_curve c = r.pick(curves_all());
    EKey mine = ec_generate(r, c);
    sa_key k = must_ec(s, mine);
    Exchange x{s, r};
    bool ed = c == SA_ELLIPTIC_CURVE_ED25519 || c == SA_ELLIPTIC_CURVE_ED448;
    size_t n = r.range(1, 4);
    for (size_t i = 0; i < n; i++) {
        EKey peer = ec_generate(r, c);
        const char* how = curve_name(c);
        if (ed) {
            x.bad(curve_name(c), x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, pub_der(peer.pkey)), "of a signature-only curve");
        } else {
            Bytes secret = ref_ecdh(mine.pkey, peer.pkey);
            if (r.chance(6) && curve_size(c) <= 32)   // a secret with a leading zero byte
                for (int t = 0; t < 600 && secret[0] != 0; t++) {
                    EVP_PKEY_free(peer.pkey);
                    peer = ec_generate(r, c);
                    secret = ref_ecdh(mine.pkey, peer.pkey);
                }
            x.good(curve_name(c), x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, pub_der(peer.pkey)), secret, how);
        }
        Bytes der = pub_der(peer.pkey);
        switch (r.below(6)) {
            case 0: x.bad(curve_name(c), x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, mangle(r, der, &how)), how); break;
            case 1: {
                sa_elliptic_curve o = r.pick(curves_all());
                if (o == c)
                    break;
                EKey w = ec_generate(r, o);
                x.bad(curve_name(c), x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, pub_der(w.pkey)), "on another curve");
                EVP_PKEY_free(w.pkey);
                break;
            }
            case 2: {   // of another type
                const EKey& w = rsa_pool(128, r.next());
                x.bad(curve_name(c), x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, pub_der(w.pkey)), "an RSA key");
                break;
            }
            case 3:
                if (curve_is_nist(c)) {   // off the curve
                    der[der.size() - 1 - r.below(curve_size(c) - 2)] ^= (uint8_t) (1 << r.below(8));
                    x.bad(curve_name(c), x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, der), "off the curve");
                } else if (!ed) {   // of small order: no secret can be agreed
                    std::fill(der.end() - (long) curve_size(c), der.end(), 0);
                    if (r.coin())
                        der[der.size() - curve_size(c)] = 1;
                    x.bad(curve_name(c), x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, der), "of small order");
                }
                break;
            case 4: {   // another algorithm, another key
                sa_key sk = other_sym(s, r);
                x.bad(curve_name(c), r.coin() ? x.run(SA_KEY_EXCHANGE_ALGORITHM_DH, k, der) : x.run(SA_KEY_EXCHANGE_ALGORITHM_ECDH, sk, der), "for another key type");
                SA(s, key_release, sk);
                break;
            }
            default: {
                x.bad(curve_name(c), x.run((sa_key_exchange_algorithm) r.pick({3, 7}), k, der), "with no such algorithm");
                break;
            }
        }
        EVP_PKEY_free(peer.pkey);
    }
    // the key is what it was
    Bytes pub;
    if (key_pub(s, k, &pub) != SA_STATUS_OK || pub != pub_der(mine.pkey))
        viol("private-key-changed", "the public key changed with use");
    SA(s, key_release, k);
    EVP_PKEY_free(mine.pkey);
}
void dh(Rng& r, Sess& s) {
    const Group& g = groups[r.chance(70) ? 0 : r.chance(95) ? r.below(groups.size() - 1) : groups.size() - 1];
    bool first = &g == &groups[0];
    Bytes p = bn(g.p, g.n), gg = bn(g.g, 1);
    sa_generate_parameters_dh pa = {p.data(), p.size(), gg.data(), gg.size()};
    sa_key k = INVALID_HANDLE;
    sa_rights ra = rights_all();
    sa_status st = SA(s, key_generate, &k, &ra, SA_KEY_TYPE_DH, &pa);
    if (st != SA_STATUS_OK)
        viol("refused:generate", "generating a DH key in %s gave %s", g.name, status_name(st));
    Bytes spki;
    if (key_pub(s, k, &spki) != SA_STATUS_OK)
        viol("refused:public", "no public key");
    BIGNUM* mine = dh_pub_of(spki, g);
    BN_CTX* bc = BN_CTX_new();
    Exchange x{s, r};
    size_t n = first ? r.range(1, 3) : 1;
    std::string nm = strf("dh-%s", g.name);
    const char* what = nm.c_str();
    for (size_t i = 0; i < n; i++) {
        Peer q = dh_peer_of(r, g, bc);
        BIGNUM* z = BN_new();
        BN_mod_exp(z, mine, q.priv, g.p, bc);
        if (first && r.chance(8))
            for (int t = 0; t < 600 && (size_t) BN_num_bytes(z) == g.n; t++) {
                BN_free(q.pub), BN_free(q.priv);
                q = dh_peer_of(r, g, bc);
                BN_mod_exp(z, mine, q.priv, g.p, bc);
            }
        Bytes secret = bn(z, g.n);
        EVP_PKEY* pk = dh_key(g, q.pub, nullptr);
        Bytes der = pub_der(pk);
        bool nf = r.chance(40);
        if (!nf)
            x.good(what, x.run(SA_KEY_EXCHANGE_ALGORITHM_DH, k, der), secret, g.name);
        else {
            Bytes kw = r.bytes(16);
            sa_key in = must_sym(s, kw), ke = INVALID_HANDLE, kh = INVALID_HANDLE;
            sa_rights r1 = rights_all(), r2 = rights_all();
            sa_key_exchange_parameters_netflix_authenticated_dh np = {in, &ke, &r1, &kh, &r2};
            st = x.run(SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, k, der, &np);
            Bytes m = secret;
            if (m[0] != 0)
                m.insert(m.begin(), 0);
            Bytes h = ref_hmac(SA_DIGEST_ALGORITHM_SHA384, ref_digest(SA_DIGEST_ALGORITHM_SHA384, kw), m);
            Bytes enc(h.begin(), h.begin() + 16), mac(h.begin() + 16, h.end());
            x.good("netflix", st, ref_netflix_wrap(enc, mac), "wrapping key");
            std::string why;
            if (!sym_matches(s, ke, enc, &why))
                viol("wrong-secret:netflix-enc", "%s", why.c_str());
            if (!sym_matches(s, kh, mac, &why))
                viol("wrong-secret:netflix-hmac", "%s", why.c_str());
            if (secret[0] == 0)
                cov("leading-zero:netflix");
            SA(s, key_release, ke);
            SA(s, key_release, kh);
            SA(s, key_release, in);
        }
        const char* how = "";
        Bytes b;
        BIGNUM* t = BN_new();
        bool extra = true;
        switch (r.below(first ? 9 : 3)) {
            case 0: b = mangle(r, der, &how); break;
            case 1: {
                const EKey& w = rsa_pool(128, r.next());
                b = pub_der(w.pkey), how = "an RSA key";
                break;
            }
            case 2: {
                EKey e = ec_generate(r, SA_ELLIPTIC_CURVE_NIST_P256);
                b = pub_der(e.pkey), how = "an EC key";
                EVP_PKEY_free(e.pkey);
                break;
            }
            case 3: {
                const Group& o = groups[1];
                Peer w = dh_peer_of(r, o, bc);
                EVP_PKEY* e = dh_key(o, w.pub, nullptr);
                b = pub_der(e), how = "of another group";
                EVP_PKEY_free(e);
                BN_free(w.pub), BN_free(w.priv);
                break;
            }
            case 4: BN_zero(t); how = "zero"; break;
            case 5: BN_one(t); how = "one"; break;
            case 6: BN_copy(t, g.p); BN_sub_word(t, 1); how = "p-1"; break;
            case 7: BN_copy(t, g.p); how = "p"; break;
            default: BN_copy(t, g.p); BN_add_word(t, 2 + r.below(100)); how = "above p"; break;
        }
        if (b.empty() && strcmp(how, "empty") != 0) {
            EVP_PKEY* e = dh_key(g, t, nullptr);
            b = pub_der(e);
            EVP_PKEY_free(e);
        }
        BN_free(t);
        if (extra)
            x.bad(what, x.run(SA_KEY_EXCHANGE_ALGORITHM_DH, k, b), how);
        EVP_PKEY_free(pk);
        BN_free(z), BN_free(q.pub), BN_free(q.priv);
    }
    Bytes again;
    if (key_pub(s, k, &again) != SA_STATUS_OK || again != spki)
        viol("private-key-changed", "the public key changed with use");
    BN_CTX_free(bc);
    BN_free(mine);
    SA(s, key_release, k);
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    if (index % 3 == 0)
        dh(r, s);
    else
        ecdh(r, s);
    ERR_clear_error();
    if (index % 1000 == 0)
        sample(strf("case seed %" PRIu64, g_case_seed));
}
}   // namespace
Harness harness() {
    return {"exchanges with keys of every curve and of six DH groups with fresh peers (a quarter chosen so that the secret starts with zero), and with "
            "malformed, foreign and out-of-group public values. Distinct: agreed secrets",
            init, one, nullptr};
}
