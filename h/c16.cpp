// C16: unwrapping gives exactly the wrapped key, or refuses.
#include "ops.hpp"
namespace {
std::map<sa_elliptic_curve, std::vector<EKey>> g_ec;
std::vector<Bytes> g_odd_rsa;   // RSA keys of sizes that are not supported
const sa_elliptic_curve PC[] = {SA_ELLIPTIC_CURVE_NIST_P192, SA_ELLIPTIC_CURVE_NIST_P224, SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P384,
        SA_ELLIPTIC_CURVE_NIST_P521};
const sa_cipher_algorithm SYM_ALGS[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC,
        SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_CHACHA20,
        SA_CIPHER_ALGORITHM_CHACHA20_POLY1305};
void init() {
    Rng r(16);
    ops_warmup(r);
    for (auto c : curves_all())
        for (int i = 0; i < 3; i++)
            g_ec[c].push_back(ec_generate(r, c));
    for (unsigned bits : {512u, 768u, 1008u, 1536u}) {
        EVP_PKEY* k = EVP_RSA_gen(bits);
        g_odd_rsa.push_back(p8_der(k));
        EVP_PKEY_free(k);
    }
}
bool pkcs(sa_cipher_algorithm a) { return a == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || a == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7; }
bool blocks(sa_cipher_algorithm a) { return pkcs(a) || a == SA_CIPHER_ALGORITHM_AES_ECB || a == SA_CIPHER_ALGORITHM_AES_CBC; }
bool aead(sa_cipher_algorithm a) { return a == SA_CIPHER_ALGORITHM_AES_GCM || a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305; }
struct Wrap {   // a wrapping key and the parameters of one use
    sa_cipher_algorithm a;
    Bytes key;
    const EKey* ek = nullptr;
    CParams p;
    Bytes tag;
    size_t tag_len = 16;
    sa_unwrap_parameters_aes_cbc cbc;
    sa_unwrap_parameters_aes_ctr ctr;
    sa_unwrap_parameters_aes_gcm gcm;
    sa_unwrap_parameters_chacha20 cc;
    sa_unwrap_parameters_chacha20_poly1305 ccp;
    sa_unwrap_parameters_rsa_oaep oaep;
    sa_unwrap_parameters_ec_elgamal eg;
    Bytes raw(const Bytes& in, Rng& r) {   // encrypts what the algorithm itself is given (padding already applied)
        switch (a) {
            case SA_CIPHER_ALGORITHM_AES_ECB:
            case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: return ref_ecb(key, in, true);
            case SA_CIPHER_ALGORITHM_AES_CBC:
            case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: return ref_cbc(key, p.iv, in, true);
            case SA_CIPHER_ALGORITHM_AES_CTR: return ref_ctr(key, p.ctr, in);
            case SA_CIPHER_ALGORITHM_CHACHA20: return ref_chacha(key, p.ctr, p.nonce, in);
            case SA_CIPHER_ALGORITHM_AES_GCM: return ref_gcm_enc(key, p.iv, p.aad, in, &tag);
            case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: return ref_ccp_enc(key, p.nonce, p.aad, in, &tag);
            case SA_CIPHER_ALGORITHM_RSA_PKCS1V15: return rsa_encrypt(ek->pkey, false, nullptr, nullptr, nullptr, in);
            case SA_CIPHER_ALGORITHM_RSA_OAEP:
                return rsa_encrypt(ek->pkey, true, ref_md(p.oaep.digest_algorithm), ref_md(p.oaep.mgf1_digest_algorithm), &p.label, in);
            default: return elgamal_encrypt(ek->pkey, ek->curve, in, r);
        }
    }
    void* params() {
        auto pp = [](const Bytes& b) { return b.empty() ? nullptr : b.data(); };
        switch (a) {
            case SA_CIPHER_ALGORITHM_AES_CBC:
            case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: return cbc = {p.iv.data(), p.iv.size()}, &cbc;
            case SA_CIPHER_ALGORITHM_AES_CTR: return ctr = {p.ctr.data(), p.ctr.size()}, &ctr;
            case SA_CIPHER_ALGORITHM_CHACHA20: return cc = {p.ctr.data(), p.ctr.size(), p.nonce.data(), p.nonce.size()}, &cc;
            case SA_CIPHER_ALGORITHM_AES_GCM: return gcm = {p.iv.data(), p.iv.size(), pp(p.aad), p.aad.size(), tag.data(), tag_len}, &gcm;
            case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                return ccp = {p.nonce.data(), p.nonce.size(), pp(p.aad), p.aad.size(), tag.data(), tag_len}, &ccp;
            case SA_CIPHER_ALGORITHM_RSA_OAEP:
                oaep = {p.oaep.digest_algorithm, p.oaep.mgf1_digest_algorithm, pp(p.label) ? p.label.data() : nullptr, p.label.size()};
                return &oaep;
            case SA_CIPHER_ALGORITHM_EC_ELGAMAL: return &eg;
            default: return nullptr;
        }
    }
};
struct Content {
    sa_key_type type = SA_KEY_TYPE_SYMMETRIC;
    Bytes b;
    const EKey* e = nullptr;
    sa_elliptic_curve curve{};
    const char* bad = nullptr;   // why it must be refused
};
size_t sym_size(Rng& r, bool multiple) {
    size_t n = r.pick({(size_t) 16, (size_t) 32, (size_t) 17, (size_t) 64, (size_t) 511, (size_t) 512, (size_t) r.range(16, 512), (size_t) r.range(16, 80)});
    return multiple ? std::max<size_t>(16, n - n % 16) : n;
}
Content content(Rng& r, sa_cipher_algorithm a) {
    Content c;
    bool mult = a == SA_CIPHER_ALGORITHM_AES_ECB || a == SA_CIPHER_ALGORITHM_AES_CBC;
    switch (r.below(14)) {
        case 0:
        case 1:
        case 2:
        case 3: {
            c.type = SA_KEY_TYPE_EC;
            c.curve = mult ? SA_ELLIPTIC_CURVE_ED25519 : r.pick(curves_all());
            c.e = &g_ec[c.curve][r.below(3)];
            c.b = c.e->priv;
            if (mult && c.b.size() % 16)
                harness_error("Ed25519 private key of %zu bytes", c.b.size());
            return c;
        }
        case 4:
        case 5: {
            if (mult)
                break;
            c.type = SA_KEY_TYPE_RSA;
            size_t n = r.pick({128, 256, 384, 512});
            c.e = &rsa_pool(n, r.below(rsa_pool_count(n)));
            c.b = c.e->priv;
            return c;
        }
        case 6: {   // not a key of the stated type and curve
            if (mult) {
                c.b = r.bytes(16 * r.pick({0, 33, 40, 64}));
                c.bad = "size";
                if (c.b.empty())   // an empty wrapped key
                    c.bad = "empty";
                return c;
            }
            switch (r.below(9)) {
                case 0: c.b = r.bytes(r.pick({0, 1, 8, 15, 513, 514, 528, 1024, 4096})), c.bad = "size"; break;
                case 1: {
                    c.type = SA_KEY_TYPE_EC, c.curve = r.pick(curves_all());
                    auto other = c.curve;
                    while (other == c.curve)
                        other = r.pick(curves_all());
                    c.b = g_ec[other][0].priv, c.bad = "other-curve";
                    break;
                }
                case 2: c.type = SA_KEY_TYPE_EC, c.curve = r.pick(curves_all()), c.b = rsa_pool(128, 0).priv, c.bad = "rsa-as-ec"; break;
                case 3: c.type = SA_KEY_TYPE_RSA, c.b = g_ec[r.pick(curves_all())][0].priv, c.bad = "ec-as-rsa"; break;
                case 4: c.type = SA_KEY_TYPE_RSA, c.b = r.pick(g_odd_rsa), c.bad = "rsa-size"; break;
                case 5: c.type = SA_KEY_TYPE_EC, c.curve = r.pick(curves_all()), c.b = r.bytes(r.range(1, 200)), c.bad = "not-a-key"; break;
                case 6: c.type = SA_KEY_TYPE_RSA, c.b = r.bytes(r.range(1, 700)), c.bad = "not-a-key"; break;
                case 7: {
                    c.type = SA_KEY_TYPE_EC, c.curve = r.pick(curves_all());
                    c.b = g_ec[c.curve][0].priv, c.b.resize(r.below(c.b.size() - 1) + 1), c.bad = "truncated-key";
                    break;
                }
                default: c.type = SA_KEY_TYPE_RSA, c.b = rsa_pool(128, 0).priv, c.b.resize(r.below(c.b.size() - 1) + 1), c.bad = "truncated-key"; break;
            }
            return c;
        }
        case 7: {   // a key type that cannot be unwrapped
            c.b = r.bytes(32);
            c.type = (sa_key_type) r.pick({(int) SA_KEY_TYPE_DH, 7, 255, 0x7fffffff});
            c.bad = "key-type";
            return c;
        }
        default: break;
    }
    c.b = r.bytes(sym_size(r, mult));
    if (r.chance(10))
        c.b.back() = 1;   // looks like padding
    if (r.chance(10))
        c.b[0] = 0;
    return c;
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    Wrap w;
    unsigned sort = (unsigned) r.below(10);
    sa_key wk;
    Content c;
    if (sort < 7) {
        w.a = r.pick(SYM_ALGS);
        w.key = r.bytes(w.a == SA_CIPHER_ALGORITHM_CHACHA20 || w.a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305 || r.coin() ? 32 : 16);
        cparams_rand(w.p, r, w.a);
        wk = must_sym(s, w.key);
        c = content(r, w.a);
    } else if (sort < 9) {
        size_t n = r.pick({128, 128, 256, 256, 384, 512});
        w.ek = &rsa_pool(n, r.below(rsa_pool_count(n)));
        w.a = r.coin() ? SA_CIPHER_ALGORITHM_RSA_PKCS1V15 : SA_CIPHER_ALGORITHM_RSA_OAEP;
        size_t mx = n - 11;
        if (w.a == SA_CIPHER_ALGORITHM_RSA_OAEP) {
            do
                cparams_rand(w.p, r, w.a);
            while (n < 2 * digest_len(w.p.oaep.digest_algorithm) + 2 + 16);
            mx = n - 2 * digest_len(w.p.oaep.digest_algorithm) - 2;
        }
        wk = must_rsa(s, *w.ek);
        c.b = r.bytes(r.pick({(size_t) 16, (size_t) 32, mx, (size_t) r.range(16, mx)}) % (mx + 1));
        if (c.b.size() < 16)
            c.b = r.bytes(16);
        if (r.chance(10)) {
            c.b = r.bytes(r.below(16));
            c.bad = "size";
        } else if (r.chance(8)) {
            c.type = r.pick({SA_KEY_TYPE_EC, SA_KEY_TYPE_RSA, SA_KEY_TYPE_DH});
            c.curve = SA_ELLIPTIC_CURVE_ED25519;
            c.b = g_ec[c.curve][0].priv;
            if (c.b.size() > mx)
                c.b = r.bytes(16);
            c.bad = "key-type";
        }
    } else {
        w.a = SA_CIPHER_ALGORITHM_EC_ELGAMAL;
        auto cu = r.pick(PC);
        w.ek = &g_ec[cu][r.below(3)];
        size_t n = curve_size(cu);
        wk = must_ec(s, *w.ek);
        c.b = elgamal_plain(nullptr, cu, r);
        size_t len = r.coin() ? 16 : r.range(16, n);
        w.eg = {(size_t) r.below(n - len + 1), len};
        if (r.chance(25)) {
            c.bad = "range";
            switch (r.below(6)) {
                case 0: w.eg = {n - 15, 16}; break;
                case 1: w.eg = {0, n + 1}; break;
                case 2: w.eg = {SIZE_MAX, 17}; break;
                case 3: w.eg = {SIZE_MAX - 15, 16 + n}; break;
                case 4: w.eg = {r.below(n), r.below(16)}; break;
                default: w.eg = {16, SIZE_MAX - r.below(20)}; break;
            }
        } else if (r.chance(10)) {
            c.type = r.pick({SA_KEY_TYPE_EC, SA_KEY_TYPE_RSA, SA_KEY_TYPE_DH});
            c.bad = "key-type";
        }
    }
    Finally f{[&] { SA(s, key_release, wk); }};
    std::string bad = c.bad ? c.bad : "";
    // what is wrapped, and how it is damaged
    Bytes in = c.b, ct;
    if (pkcs(w.a)) {
        in = pkcs7(in);
        if (bad.empty() && r.chance(25)) {
            size_t L = in.size(), pad = in.back();
            Bytes was = in;
            switch (r.below(5)) {
                case 0: in[L - 1] = (uint8_t) r.pick({0, 17, 18, 32, 128, 255}); break;
                case 1: in[L - pad] ^= (uint8_t) (1u << r.below(8)); break;   // the first byte of the padding
                case 2: in[L - 1 - r.below(pad)] ^= (uint8_t) r.range(1, 255); break;
                case 3: in[L - 1] = (uint8_t) r.range(2, 16), in[L - 2] = (uint8_t) (in[L - 1] ^ 1); break;
                default: {
                    size_t p = r.range(2, 16);
                    for (size_t i = 0; i < p; i++)
                        in[L - 1 - i] = (uint8_t) p;
                    in[L - 1 - r.range(1, p - 1)] ^= (uint8_t) (1u << r.below(8));
                }
            }
            // is the padding really invalid?
            size_t v = in.back();
            bool valid = v >= 1 && v <= 16;
            for (size_t i = 0; valid && i < v; i++)
                valid = in[L - 1 - i] == v;
            if (valid)
                in = was;
            else
                bad = "padding";
        }
    }
    if (aead(w.a) && r.chance(30))
        w.tag_len = w.a == SA_CIPHER_ALGORITHM_AES_GCM ? r.pick({12, 13, 14, 15, 8, 4}) : 16;
    ct = w.raw(in, r);
    sa_key use = wk, extra = INVALID_HANDLE;
    if (bad.empty() && aead(w.a) && r.chance(40) && w.tag_len >= 8) {
        switch (r.below(7)) {
            case 0: ct[r.below(ct.size())] ^= (uint8_t) (1u << r.below(8)), bad = "ciphertext"; break;
            case 1: w.tag[r.below(w.tag_len)] ^= (uint8_t) (1u << r.below(8)), bad = "tag"; break;
            case 2:
                if (w.p.aad.empty())
                    w.p.aad = r.bytes(1);
                else if (r.coin())
                    w.p.aad[r.below(w.p.aad.size())] ^= 1;
                else
                    w.p.aad.pop_back();
                bad = "aad";
                break;
            case 3: {
                Bytes& iv = w.a == SA_CIPHER_ALGORITHM_AES_GCM ? w.p.iv : w.p.nonce;
                iv[r.below(iv.size())] ^= (uint8_t) (1u << r.below(8));
                bad = "iv";
                break;
            }
            case 4: ct.pop_back(), bad = "shortened"; break;
            case 5: ct.push_back((uint8_t) r.next()), bad = "lengthened"; break;
            default: extra = use = must_sym(s, r.bytes(w.key.size())), bad = "other-key"; break;
        }
    } else if (bad.empty() && blocks(w.a) && r.chance(6)) {
        ct.resize(r.chance(30) ? 0 : ct.size() - r.range(1, 15)), bad = ct.empty() ? "nothing" : "length";
    } else if (bad.empty() && w.a == SA_CIPHER_ALGORITHM_RSA_OAEP && r.chance(25)) {
        switch (r.below(3)) {
            case 0: ct[r.below(ct.size())] ^= (uint8_t) (1u << r.below(8)), bad = "ciphertext"; break;
            case 1: w.p.label.push_back(1), bad = "label"; break;
            default:
                bad = "mgf1";
                w.p.oaep.mgf1_digest_algorithm = (sa_digest_algorithm) ((w.p.oaep.mgf1_digest_algorithm + r.range(1, 3)) % 4);
        }
    } else if (bad.empty() && w.ek && r.chance(10)) {
        ct.resize(r.pick({ct.size() - 1, ct.size() + 1, ct.size() / 2, ct.size() + 16})), bad = "length";
    } else if (bad.empty() && w.a == SA_CIPHER_ALGORITHM_EC_ELGAMAL && r.chance(10)) {
        ct[r.below(ct.size())] ^= (uint8_t) (1u << r.below(8)), bad = "ciphertext";
    }
    Finally f2{[&] {
        if (extra != INVALID_HANDLE)
            SA(s, key_release, extra);
    }};
    sa_rights rt = rights_all();
    sa_unwrap_type_parameters_ec tp = {c.curve};
    sa_key k = 0xdead;
    GBuf ib(ct);
    uint64_t live = ta_live_blocks();
    std::string what = strf("%s, type %d, %zu bytes%s%s", alg_name(w.a), c.type, c.b.size(), c.type == SA_KEY_TYPE_EC ? strf(" %s", curve_name(c.curve)).c_str() : "",
            bad.empty() ? "" : (", " + bad).c_str());
    trace("%s", what.c_str());
    sa_status st = SA(s, key_unwrap, &k, &rt, c.type, c.type == SA_KEY_TYPE_EC ? &tp : nullptr, w.a, w.params(), use, ib.p, ib.n);
    if (ib.get() != ct)
        viol("input-changed", "%s: the wrapped data was changed", what.c_str());
    if (!bad.empty()) {
        if (st == SA_STATUS_OK)
            viol("accepted:" + bad, "%s: unwrapped", what.c_str());
        if (k != INVALID_HANDLE && k != 0xdead)
            viol("key-after-refusal", "%s: refused, but a handle was returned", what.c_str());
        if (ta_live_blocks() != live)
            viol("memory-after-refusal", "%s: refused, but memory is still held", what.c_str());
        cov("refused:" + bad);
        nontrivial(hash_bytes(ct.data(), ct.size(), 1));
        return;
    }
    if (st != SA_STATUS_OK)
        viol(strf("refused:%s", alg_name(w.a)), "%s: refused with %s", what.c_str(), status_name(st));
    Finally f3{[&] { SA(s, key_release, k); }};
    std::string why;
    if (c.type == SA_KEY_TYPE_SYMMETRIC) {
        Bytes m = w.a == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? Bytes(c.b.begin() + (long) w.eg.offset, c.b.begin() + (long) (w.eg.offset + w.eg.key_length)) : c.b;
        if (!sym_matches(s, k, m, &why))
            viol(strf("wrong:%s", alg_name(w.a)), "%s: %s", what.c_str(), why.c_str());
    } else if (!asym_matches(s, r, k, c.type == SA_KEY_TYPE_RSA, *c.e, &why))
        viol(strf("wrong:%s", alg_name(w.a)), "%s: %s", what.c_str(), why.c_str());
    cov(strf("unwrapped:%s:%d", alg_name(w.a), c.type));
    if (c.type == SA_KEY_TYPE_EC)
        cov(strf("curve:%s", curve_name(c.curve)));
    nontrivial(hash_bytes(ct.data(), ct.size()));
    if (index % 4000 == 0)
        sample(strf("case seed %" PRIu64 ": %s", g_case_seed, what.c_str()));
}
}   // namespace
Harness harness() {
    return {"one wrapped key per case: every algorithm and key type, sizes around the limits, paddings, tags and AAD, damaged in every way, and contents that "
            "are no supported key. Distinct: wrapped blobs offered",
            init, one, nullptr};
}
