#include "ops.hpp"

const char* kk_name(KK k) {
    static const char* n[] = {"sym128", "sym256", "RSA", "EC-P256", "ED25519", "X25519", "DH"};
    return n[k];
}
static Bytes unhex(const char* s) {
    Bytes b;
    for (; *s; s += 2)
        b.push_back((uint8_t) strtol(std::string(s, 2).c_str(), nullptr, 16));
    return b;
}
const DhGroup& dh_group() {
    static const DhGroup g = {unhex("907205B2716BB451FD2730DF28273A4A10F6137FB44696A6CEEBF093EB76EAC2C76683CD05319621E268B21CC59C"
                                    "8319DD3BF2FDBD7BAC0473C1005F6DAC1EEF"),
            {2}};
    return g;
}
KInfo make_key(Sess& s, Rng& r, KK kind, const sa_rights& rights, sa_status* stp) {
    KInfo k;
    k.kind = kind;
    k.rights = rights;
    sa_status st;
    switch (kind) {
        case K_SYM16:
        case K_SYM32:
            k.mat = r.bytes(kind == K_SYM16 ? 16 : 32);
            st = imp_sym(s, &k.h, k.mat.data(), k.mat.size(), &rights);
            break;
        case K_RSA:
            k.ek = rsa_pool(128, r.next());
            k.mat = k.ek.priv;
            st = imp_rsa(s, &k.h, k.mat, &rights);
            break;
        case K_DH: {
            const DhGroup& g = dh_group();
            sa_generate_parameters_dh pa = {g.p.data(), g.p.size(), g.g.data(), g.g.size()};
            st = SA(s, key_generate, &k.h, &rights, SA_KEY_TYPE_DH, &pa);
            break;
        }
        default:
            k.ek = ec_generate(r, kind == K_EC256 ? SA_ELLIPTIC_CURVE_NIST_P256 : kind == K_ED25519 ? SA_ELLIPTIC_CURVE_ED25519
                                                                                                    : SA_ELLIPTIC_CURVE_X25519);
            k.mat = k.ek.priv;
            st = imp_ec(s, &k.h, k.ek.curve, k.mat, &rights);
            break;
    }
    if (stp)
        *stp = st;
    else if (st != SA_STATUS_OK)
        viol(strf("valid-key-refused:%s", kk_name(kind)), "creating a %s key with rights %s gave %s", kk_name(kind),
                rights_str(rights).c_str(), status_name(st));
    return k;
}

sa_status OpEnv::call(const std::function<sa_status()>& f) {
    uint64_t live = ta_live_blocks();
    struct As {
        As(const sa_uuid* u) { g_as = u; }
        ~As() { g_as = nullptr; }
    } guard(as);
    sa_status st;
    {
        FaultScope scope;
        st = f();
    }
    if (st != SA_STATUS_OK && check_leak && ta_live_blocks() != live)
        viol(strf("kept-after-refusal:%s", op), "%s was refused (%s) but the TA holds %lld more blocks than before", op,
                status_name(st), (long long) (ta_live_blocks() - live));
    return st;
}

// ---------------------------------------------------------------- reference functions
Bytes ref_hkdf(sa_digest_algorithm d, const Bytes& ikm, const Bytes& salt, const Bytes& info, size_t n) {
    Bytes prk = ref_hmac(d, salt.empty() ? Bytes(digest_len(d), 0) : salt, ikm), out, t;
    secret(ikm, "a symmetric key");
    secret(prk, "a pseudorandom key");
    for (int i = 1; out.size() < n; i++) {
        t = ref_hmac(d, prk, cat({t, info, Bytes{(uint8_t) i}}));
        app(out, t);
    }
    secret(out, "a derived key");
    out.resize(n);
    return out;
}
Bytes ref_concat(sa_digest_algorithm d, const Bytes& key, const Bytes& info, size_t n, bool x963) {
    Bytes out;
    for (uint32_t i = 1; out.size() < n; i++) {
        Bytes c = {(uint8_t) (i >> 24), (uint8_t) (i >> 16), (uint8_t) (i >> 8), (uint8_t) i};
        app(out, ref_digest(d, x963 ? cat({key, c, info}) : cat({c, key, info})));
    }
    secret(out, "a derived key");
    out.resize(n);
    return out;
}
Bytes ref_cmac_kdf(const Bytes& key, const Bytes& other, uint8_t counter, size_t n) {
    Bytes out;
    for (uint8_t i = counter; out.size() < n; i++)
        app(out, ref_cmac(key, cat({Bytes{i}, other})));
    secret(out, "a derived key");
    out.resize(n);
    return out;
}
Bytes ref_netflix_wrap(const Bytes& kenc, const Bytes& khmac) {
    Bytes salt = unhex("027617984f6227539a630b897c017d69"), info = unhex("809f82a7addf548d3ea9dd067ff9bb91");
    Bytes t = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, salt, cat({kenc, khmac}));
    Bytes w = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t, info);
    secret(t, "a derived key");
    secret(w, "a derived key");
    w.resize(16);
    return w;
}
Bytes ref_ecdh(EVP_PKEY* priv, EVP_PKEY* peer) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(priv, nullptr);
    HCHECK(EVP_PKEY_derive_init(c) == 1);
    if (EVP_PKEY_get_base_id(priv) == EVP_PKEY_DH)
        EVP_PKEY_CTX_set_dh_pad(c, 1);
    HCHECK(EVP_PKEY_derive_set_peer(c, peer) == 1);
    size_t n = 0;
    HCHECK(EVP_PKEY_derive(c, nullptr, &n) == 1);
    Bytes o(n);
    HCHECK(EVP_PKEY_derive(c, o.data(), &n) == 1);
    o.resize(n);
    EVP_PKEY_CTX_free(c);
    secret(o, "an exchanged secret");
    return o;
}
Bytes rsa_encrypt(EVP_PKEY* k, bool oaep, const EVP_MD* md, const EVP_MD* mgf, const Bytes* label, const Bytes& in) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, nullptr);
    secret(in, "a plaintext");
    HCHECK(EVP_PKEY_encrypt_init(c) == 1);
    HCHECK(EVP_PKEY_CTX_set_rsa_padding(c, oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING) == 1);
    if (oaep) {
        HCHECK(EVP_PKEY_CTX_set_rsa_oaep_md(c, md) == 1);
        HCHECK(EVP_PKEY_CTX_set_rsa_mgf1_md(c, mgf) == 1);
        if (label && !label->empty()) {
            void* l = OPENSSL_memdup(label->data(), label->size());
            HCHECK(EVP_PKEY_CTX_set0_rsa_oaep_label(c, l, (int) label->size()) == 1);
        }
    }
    size_t n = 0;
    static const uint8_t z = 0;
    HCHECK(EVP_PKEY_encrypt(c, nullptr, &n, in.empty() ? &z : in.data(), in.size()) == 1);
    Bytes o(n);
    HCHECK(EVP_PKEY_encrypt(c, o.data(), &n, in.empty() ? &z : in.data(), in.size()) == 1);
    o.resize(n);
    EVP_PKEY_CTX_free(c);
    return o;
}
static Bytes point_xy(const EC_GROUP* g, const EC_POINT* p, size_t n) {
    Bytes b(2 * n + 1);
    HCHECK(EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, b.data(), b.size(), nullptr) == 2 * n + 1);
    b.erase(b.begin());
    return b;
}
Bytes elgamal_plain(EVP_PKEY*, sa_elliptic_curve c, Rng& r) {
    EC_GROUP* g = EC_GROUP_new_by_curve_name(OBJ_txt2nid(curve_name(c)));
    EC_POINT* p = EC_POINT_new(g);
    Bytes x;
    for (;;) {
        x = r.bytes(curve_size(c));
        if (c == SA_ELLIPTIC_CURVE_NIST_P521)
            x[0] &= 1;
        if (r.chance(5))
            x[0] = 0;
        BIGNUM* b = BN_bin2bn(x.data(), (int) x.size(), nullptr);
        int ok = EC_POINT_set_compressed_coordinates(g, p, b, 0, nullptr);
        BN_free(b);
        if (ok == 1)
            break;
        ERR_clear_error();
    }
    EC_POINT_free(p);
    EC_GROUP_free(g);
    return x;
}
Bytes elgamal_encrypt(EVP_PKEY* k, sa_elliptic_curve c, const Bytes& px, Rng& r) {
    size_t n = curve_size(c);
    secret(px, "a plaintext");
    secret(Bytes(px.rbegin(), px.rend()), "a plaintext");
    EC_GROUP* g = EC_GROUP_new_by_curve_name(OBJ_txt2nid(curve_name(c)));
    EC_POINT *m = EC_POINT_new(g), *q = EC_POINT_new(g), *c1 = EC_POINT_new(g), *c2 = EC_POINT_new(g);
    BIGNUM* b = BN_bin2bn(px.data(), (int) px.size(), nullptr);
    HCHECK(EC_POINT_set_compressed_coordinates(g, m, b, r.coin(), nullptr) == 1);
    size_t pn = 0;
    HCHECK(EVP_PKEY_get_octet_string_param(k, "pub", nullptr, 0, &pn));
    Bytes pub(pn);
    HCHECK(EVP_PKEY_get_octet_string_param(k, "pub", pub.data(), pn, &pn));
    HCHECK(EC_POINT_oct2point(g, q, pub.data(), pn, nullptr) == 1);
    Bytes e = r.bytes(n);
    BIGNUM* eb = BN_bin2bn(e.data(), (int) e.size(), nullptr);
    BN_CTX* bc = BN_CTX_new();
    BN_nnmod(eb, eb, EC_GROUP_get0_order(g), bc);
    BN_add_word(eb, BN_is_zero(eb) ? 1 : 0);
    HCHECK(EC_POINT_mul(g, c1, eb, nullptr, nullptr, bc) == 1);
    HCHECK(EC_POINT_mul(g, c2, nullptr, q, eb, bc) == 1);
    HCHECK(EC_POINT_add(g, c2, c2, m, bc) == 1);
    Bytes o = cat({point_xy(g, c1, n), point_xy(g, c2, n)});
    BN_CTX_free(bc);
    BN_free(b);
    BN_free(eb);
    for (auto* p : {m, q, c1, c2})
        EC_POINT_free(p);
    EC_GROUP_free(g);
    return o;
}
bool verify_sig(EVP_PKEY* pub, sa_signature_algorithm alg, const EVP_MD* md, const EVP_MD* mgf, int salt, bool pre,
        sa_elliptic_curve curve, const Bytes& in, const Bytes& sig) {
    static const uint8_t z = 0;
    const uint8_t* ip = in.empty() ? &z : in.data();
    bool ok = false;
    if (alg == SA_SIGNATURE_ALGORITHM_EDDSA) {
        EVP_MD_CTX* c = EVP_MD_CTX_new();
        ok = EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, pub) == 1 &&
             EVP_DigestVerify(c, sig.data(), sig.size(), ip, in.size()) == 1;
        EVP_MD_CTX_free(c);
        ERR_clear_error();
        return ok;
    }
    Bytes s2 = sig;
    if (alg == SA_SIGNATURE_ALGORITHM_ECDSA) {
        size_t n = curve_size(curve);
        if (sig.size() != 2 * n)
            return false;
        ECDSA_SIG* es = ECDSA_SIG_new();
        ECDSA_SIG_set0(es, BN_bin2bn(sig.data(), (int) n, nullptr), BN_bin2bn(sig.data() + n, (int) n, nullptr));
        unsigned char* der = nullptr;
        int dn = i2d_ECDSA_SIG(es, &der);
        s2.assign(der, der + dn);
        OPENSSL_free(der);
        ECDSA_SIG_free(es);
    }
    Bytes dg = in;
    if (!pre) {
        dg.resize(EVP_MAX_MD_SIZE);
        unsigned n = 0;
        EVP_Digest(ip, in.size(), dg.data(), &n, md, nullptr);
        dg.resize(n);
    }
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pub, nullptr);
    ok = EVP_PKEY_verify_init(c) == 1;
    if (alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15)
        ok = ok && EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) == 1;
    if (alg == SA_SIGNATURE_ALGORITHM_RSA_PSS)
        ok = ok && EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PSS_PADDING) == 1 &&
             EVP_PKEY_CTX_set_rsa_pss_saltlen(c, salt) == 1 && EVP_PKEY_CTX_set_rsa_mgf1_md(c, mgf) == 1;
    ok = ok && EVP_PKEY_CTX_set_signature_md(c, md) == 1;
    ok = ok && EVP_PKEY_verify(c, s2.data(), s2.size(), dg.data(), dg.size()) == 1;
    EVP_PKEY_CTX_free(c);
    ERR_clear_error();
    return ok;
}
static Bytes B(const char* s) { return Bytes((const uint8_t*) s, (const uint8_t*) s + strlen(s)); }
static std::string b64std(const Bytes& in) {
    Bytes o = b64url(in);
    for (auto& c : o)
        c = c == '-' ? '+' : c == '_' ? '/' : c;
    while (o.size() % 4)
        o.push_back('=');
    return std::string(o.begin(), o.end());
}
Bytes typej_simple(const Bytes& kcipher, const Bytes& khmac, const Bytes& content) {
    secret(content, "a symmetric key");
    Bytes rights(16, 0);
    rights[0] = 5;
    std::string pl = strf("{\"contentKeyContainerVersion\":2,\"contentKeyTransportAlgorithm\":\"aesEcbNone\",\"contentKeyLength\":%zu,"
                          "\"contentKey\":\"%s\",\"contentKeyId\":\"cid\",\"contentKeyRights\":\"%s\",\"contentKeyUsage\":1,"
                          "\"contentKeyNotBefore\":\"2000-01-01T00:00:00Z\",\"contentKeyNotOnOrAfter\":\"2099-01-01T00:00:00Z\","
                          "\"contentKeyCacheable\":true}",
            content.size(), b64std(ref_ecb(kcipher, content, true)).c_str(), b64std(rights).c_str());
    Bytes hp = cat({b64url(B("{\"alg\":\"HS256\",\"kid\":\"k\"}")), B("."), b64url(B(pl.c_str()))});
    return cat({hp, B("."), b64url(ref_hmac(SA_DIGEST_ALGORITHM_SHA256, khmac, hp))});
}

// ---------------------------------------------------------------- the catalogue
static std::vector<Op> g_ops;
static const unsigned SYM = 1u << K_SYM16 | 1u << K_SYM32, S16 = 1u << K_SYM16, S32 = 1u << K_SYM32, RSA_ = 1u << K_RSA,
                      ECK = 1u << K_EC256, EDK = 1u << K_ED25519, XK = 1u << K_X25519, DHK = 1u << K_DH,
                      ALLK = (1u << K_COUNT) - 1;

static void add(const std::string& name, int flag, unsigned kinds, std::function<sa_status(OpEnv&)> f) {
    Op o;
    o.name = name;
    o.flag = flag;
    o.kinds = kinds;
    o.load = true;
    o.clear = o.svp_able = o.sym_cipher = o.creates = o.unwraps = false;
    o.parent_pos = 1;
    o.run = f;
    g_ops.push_back(o);
}
static Op& last() { return g_ops.back(); }

[[noreturn]] static void wrong(OpEnv& e, const std::string& why) {
    viol(strf("wrong-result:%s", e.op), "%s succeeded but %s", e.op, why.c_str());
}
static void untouched(OpEnv& e, const GBuf& b, int fill = 0xA5) {
    if (g_fp && g_fp->fired)
        return;   // what an operation had written when it ran out of memory
    for (size_t i = 0; i < b.n; i++)
        if (b.p[i] != (uint8_t) fill)
            viol(strf("output-after-refusal:%s", e.op), "%s was refused but byte %zu of its output buffer was written", e.op, i);
}
// what happens to a created key: compared with the expected material, handed to the caller, released
static sa_status child(OpEnv& e, sa_status st, sa_key k, const Bytes* expect) {
    if (st != SA_STATUS_OK) {
        if (k != INVALID_HANDLE) {
            sa_header h;
            if (SA(e.s, key_header, &h, k) == SA_STATUS_OK)
                viol(strf("key-after-refusal:%s", e.op), "%s was refused (%s) but returned a usable key handle", e.op, status_name(st));
        }
        return st;
    }
    std::string why;
    if (expect && !e.child && !sym_matches(e.s, k, *expect, &why))
        wrong(e, why);
    if (e.on_child)
        e.on_child(k);
    SA(e.s, key_release, k);
    return st;
}
static sa_key helper_sym(OpEnv& e, const Bytes& b) {
    sa_key k = must_sym(e.s, b);
    if (e.avoid && k == e.h) {   // the handle under test is dead or foreign here: leave its value unused
        sa_key k2 = must_sym(e.s, b);
        SA(e.s, key_release, k);
        k = k2;
    }
    return k;
}
static sa_key helper_dh(OpEnv& e) {
    sa_key k = make_key(e.s, e.r, K_DH, rights_all()).h;
    if (e.avoid && k == e.h) {
        sa_key k2 = make_key(e.s, e.r, K_DH, rights_all()).h;
        SA(e.s, key_release, k);
        k = k2;
    }
    return k;
}
static const sa_rights& child_rights(OpEnv& e) {
    static const sa_rights all = rights_all();
    return e.child ? *e.child : all;
}
static sa_status cipher_op(OpEnv& e, sa_cipher_algorithm a, bool enc) {
    CParams p;
    cparams_rand(p, e.r, a);
    sa_crypto_cipher_context c = INVALID_HANDLE;
    sa_status st = e.call([&] { return cinit(e.s, &c, a, enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, e.h, p); });
    if (st != SA_STATUS_OK)
        return st;
    e.stage = 1;
    if (e.mid)
        e.mid();
    bool aead = a == SA_CIPHER_ALGORITHM_AES_GCM || a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    size_t n = 16 * e.r.range(1, 4);
    Bytes in = e.r.bytes(n), expect, tag;
    switch (a) {
        case SA_CIPHER_ALGORITHM_AES_ECB:
        case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: expect = ref_ecb(e.k.mat, in, enc); break;
        case SA_CIPHER_ALGORITHM_AES_CBC:
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: expect = ref_cbc(e.k.mat, p.iv, in, enc); break;
        case SA_CIPHER_ALGORITHM_AES_CTR: expect = ref_ctr(e.k.mat, p.ctr, in); break;
        case SA_CIPHER_ALGORITHM_AES_GCM: expect = ref_gcm_enc(e.k.mat, p.iv, p.aad, in, &tag); break;
        case SA_CIPHER_ALGORITHM_CHACHA20: expect = ref_chacha(e.k.mat, p.ctr, p.nonce, in); break;
        default: expect = ref_ccp_enc(e.k.mat, p.nonce, p.aad, in, &tag); break;
    }
    if ((a == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || a == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7) && !enc)
        expect.resize(n - 16);   // decryption holds the last block back
    if (!enc)
        secret(expect, "a plaintext");
    {
        GBuf i(in), o(n + 16);
        sa_svp_buffer hb = INVALID_HANDLE;
        bool svp = e.svp_out && !aead;
        if (svp) {
            sa_status s2 = SA(e.s, svp_buffer_create, &hb, o.p, o.n);
            HCHECK(s2 == SA_STATUS_OK);
        }
        sa_buffer ib = clear_buf(i.p, i.n), ob = svp ? svp_buf(hb) : clear_buf(o.p, o.n);
        size_t len = n;
        // in the AEAD case part of the message goes through process_last
        size_t lastn = aead ? e.r.range(0, 16) : 0;
        len = n - lastn;
        st = e.call([&] { return SA(e.s, crypto_cipher_process, &ob, c, &ib, &len); });
        if (st == SA_STATUS_OK && aead) {
            GBuf t(16);
            sa_cipher_end_parameters_aes_gcm ep = {t.p, 16};
            size_t l2 = lastn;
            if (!enc)
                memcpy(t.p, e.r.bytes(16).data(), 16);
            if (enc) {
                st = e.call([&] { return SA(e.s, crypto_cipher_process_last, &ob, c, &ib, &l2, &ep); });
                if (st == SA_STATUS_OK && t.get() != tag)
                    wrong(e, "the tag differs");
                len += l2;
            }
        }
        if (st == SA_STATUS_OK) {
            if (memcmp(o.p, expect.data(), std::min(len, expect.size())) != 0 || (!aead && len != expect.size()))
                wrong(e, strf("the output of %zu bytes differs from the reference", len));
        } else
            untouched(e, o);
        if (svp) {
            void* m;
            size_t sz;
            if (e.s.direct)
                ta_sa_svp_buffer_release(&m, &sz, hb, e.s.slot, &e.s.uuid);
            else
                sa_svp_buffer_release(&m, &sz, hb);
        }
    }
    SA(e.s, crypto_cipher_release, c);
    return st;
}
// a context used as a stream: process, mid(), process_last
static sa_status last_op(OpEnv& e, sa_cipher_algorithm a, bool enc) {
    CParams p;
    cparams_rand(p, e.r, a);
    bool aead = a == SA_CIPHER_ALGORITHM_AES_GCM || a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    bool pk = a == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || a == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7;
    size_t first = 16 * e.r.range(1, 3);
    Bytes plain = e.r.bytes(first + (pk ? e.r.below(16) : e.r.range(1, 16))), ct, tag;
    switch (a) {
        case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: ct = ref_ecb(e.k.mat, pkcs7(plain), true); break;
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: ct = ref_cbc(e.k.mat, p.iv, pkcs7(plain), true); break;
        case SA_CIPHER_ALGORITHM_AES_CTR: ct = ref_ctr(e.k.mat, p.ctr, plain); break;
        case SA_CIPHER_ALGORITHM_AES_GCM: ct = ref_gcm_enc(e.k.mat, p.iv, p.aad, plain, &tag); break;
        case SA_CIPHER_ALGORITHM_CHACHA20: ct = ref_chacha(e.k.mat, p.ctr, p.nonce, plain); break;
        default: ct = ref_ccp_enc(e.k.mat, p.nonce, p.aad, plain, &tag); break;
    }
    const Bytes &in = enc ? plain : ct, &expect = enc ? ct : plain;
    if (!enc)
        secret(plain, "a plaintext");
    sa_crypto_cipher_context c = INVALID_HANDLE;
    sa_status st = e.call([&] { return cinit(e.s, &c, a, enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, e.h, p); });
    if (st != SA_STATUS_OK)
        return st;
    e.stage = 1;
    {
        GBuf i(in), o(expect.size() + 32), t(16);
        sa_svp_buffer hb = INVALID_HANDLE;
        bool svp = e.svp_out && !aead;
        if (svp)
            HCHECK(SA(e.s, svp_buffer_create, &hb, o.p, o.n) == SA_STATUS_OK);
        sa_buffer ib = clear_buf(i.p, i.n), ob = svp ? svp_buf(hb) : clear_buf(o.p, o.n);
        size_t l1 = first, done = 0;
        st = e.call([&] { return SA(e.s, crypto_cipher_process, &ob, c, &ib, &l1); });
        if (st == SA_STATUS_OK) {
            done = l1;
            e.stage = 2;
            if (e.mid)
                e.mid();
            if (!enc && aead)
                memcpy(t.p, tag.data(), 16);
            sa_cipher_end_parameters_aes_gcm ep = {t.p, 16};
            size_t l2 = in.size() - first;
            st = e.call([&] { return SA(e.s, crypto_cipher_process_last, &ob, c, &ib, &l2, aead ? &ep : nullptr); });
            if (st == SA_STATUS_OK) {
                if (done + l2 != expect.size() || memcmp(o.p, expect.data(), expect.size()) != 0)
                    wrong(e, strf("the output of %zu+%zu bytes differs from the reference", done, l2));
                if (enc && aead && t.get() != tag)
                    wrong(e, "the tag differs");
                done += l2;
            }
        }
        for (size_t x = done; x < o.n && !(g_fp && g_fp->fired); x++)
            if (o.p[x] != 0xA5)
                viol(strf("output-after-refusal:%s", e.op), "%s (%s) wrote byte %zu past the %zu it produced", e.op, status_name(st), x,
                        done);
        if (svp) {
            void* m;
            size_t sz;
            SA(e.s, svp_buffer_release, &m, &sz, hb);
        }
    }
    SA(e.s, crypto_cipher_release, c);
    return st;
}
// one common encryption sample, after mid()
static sa_status cenc_op(OpEnv& e, bool ctr) {
    CParams p;
    cparams_rand(p, e.r, ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC);
    sa_crypto_cipher_context c = INVALID_HANDLE;
    sa_status st = e.call([&] {
        return cinit(e.s, &c, ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_MODE_DECRYPT, e.h, p);
    });
    if (st != SA_STATUS_OK)
        return st;
    e.stage = 2;
    Bytes hm = e.r.bytes(16);
    sa_crypto_cipher_context helper = INVALID_HANDLE;
    if (e.s.direct && e.r.coin()) {
        sa_key hk = helper_sym(e, hm);
        CParams hp;
        cparams_rand(hp, e.r, ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC);
        if (cinit(e.s, &helper, ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_MODE_DECRYPT, hk, hp) !=
                SA_STATUS_OK)
            helper = INVALID_HANDLE;
        SA(e.s, key_release, hk);
    }
    if (e.mid)
        e.mid();
    struct One { Bytes in, iv, expect; sa_subsample_length sl; std::unique_ptr<GBuf> i, o; sa_svp_buffer hb = INVALID_HANDLE;
        sa_buffer ib, ob; sa_crypto_cipher_context c; };
    auto mk = [&](One& x, const Bytes& key, sa_crypto_cipher_context cc) {
        size_t clr = e.r.below(20), prot = ctr ? e.r.range(1, 60) : 16 * e.r.range(1, 4);
        x.in = e.r.bytes(clr + prot);
        x.iv = e.r.bytes(16);
        x.expect = x.in;
        Bytes enc(x.in.begin() + (long) clr, x.in.end());
        Bytes dec = ctr ? ref_ctr64(key, x.iv, enc) : ref_cbc(key, x.iv, enc, false);
        std::copy(dec.begin(), dec.end(), x.expect.begin() + (long) clr);
        secret(dec, "a plaintext");
        x.i.reset(new GBuf(x.in));
        x.o.reset(new GBuf(x.in.size() + 16));
        if (e.svp_out)
            HCHECK(SA(e.s, svp_buffer_create, &x.hb, x.o->p, x.o->n) == SA_STATUS_OK);
        x.ib = clear_buf(x.i->p, x.i->n);
        x.ob = e.svp_out ? svp_buf(x.hb) : clear_buf(x.o->p, x.o->n);
        x.sl = {clr, prot};
        x.c = cc;
    };
    {   // in one call with samples of another, unrestricted key: every sample's key counts, and all are refused together
        One x[3];
        size_t n = e.s.direct && helper != INVALID_HANDLE ? e.r.range(2, 3) : 1, me = e.r.below(n);
        sa_sample sm[3];
        for (size_t j = 0; j < n; j++) {
            mk(x[j], j == me ? e.k.mat : hm, j == me ? c : helper);
            sm[j] = {x[j].iv.data(), 16, 0, 0, 1, &x[j].sl, x[j].c, &x[j].ob, &x[j].ib};
        }
        st = e.call([&] { return SA(e.s, process_common_encryption, n, sm); });
        for (size_t j = 0; j < n; j++)
            if (st == SA_STATUS_OK) {
                if (x[j].o->get(0, x[j].expect.size()) != x[j].expect)
                    wrong(e, strf("sample %zu of %zu was not decrypted as defined", j, n));
            } else
                untouched(e, *x[j].o);
        for (size_t j = 0; j < n; j++)
            if (e.svp_out) {
                void* m;
                size_t sz;
                SA(e.s, svp_buffer_release, &m, &sz, x[j].hb);
            }
    }
    SA(e.s, crypto_cipher_release, c);
    if (helper != INVALID_HANDLE)
        SA(e.s, crypto_cipher_release, helper);
    return st;
}
static sa_status mac_op(OpEnv& e, sa_mac_algorithm a) {
    sa_mac_parameters_hmac hp = {DIGESTS[e.r.below(4)]};
    sa_crypto_mac_context c = INVALID_HANDLE;
    sa_status st = e.call([&] { return SA(e.s, crypto_mac_init, &c, a, e.h, a == SA_MAC_ALGORITHM_HMAC ? &hp : nullptr); });
    if (st != SA_STATUS_OK)
        return st;
    Bytes in = e.r.bytes(e.r.len(100));
    Bytes expect = a == SA_MAC_ALGORITHM_HMAC ? ref_hmac(hp.digest_algorithm, e.k.mat, in) : ref_cmac(e.k.mat, in);
    GBuf o(expect.size());
    size_t n = o.n;
    st = e.call([&] { return SA(e.s, crypto_mac_process, c, in.data(), in.size()); });
    if (st == SA_STATUS_OK)
        st = e.call([&] { return SA(e.s, crypto_mac_compute, o.p, &n, c); });
    if (st == SA_STATUS_OK && o.get() != expect)
        wrong(e, "the MAC differs");
    SA(e.s, crypto_mac_release, c);
    return st;
}
static sa_status unwrap_op(OpEnv& e, sa_cipher_algorithm a) {
    CParams p;
    cparams_rand(p, e.r, a);
    Bytes content = e.r.bytes(e.r.coin() ? 16 : 32), w, tag;
    sa_unwrap_parameters_aes_gcm gp;
    sa_unwrap_parameters_chacha20_poly1305 cp;
    void* pa = p.ptr;
    switch (a) {
        case SA_CIPHER_ALGORITHM_AES_ECB: w = ref_ecb(e.k.mat, content, true); break;
        case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: w = ref_ecb(e.k.mat, pkcs7(content), true); break;
        case SA_CIPHER_ALGORITHM_AES_CBC: w = ref_cbc(e.k.mat, p.iv, content, true); break;
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: w = ref_cbc(e.k.mat, p.iv, pkcs7(content), true); break;
        case SA_CIPHER_ALGORITHM_AES_CTR: w = ref_ctr(e.k.mat, p.ctr, content); break;
        case SA_CIPHER_ALGORITHM_CHACHA20: w = ref_chacha(e.k.mat, p.ctr, p.nonce, content); break;
        case SA_CIPHER_ALGORITHM_AES_GCM:
            w = ref_gcm_enc(e.k.mat, p.iv, p.aad, content, &tag);
            gp = {p.gcm.iv, p.gcm.iv_length, p.gcm.aad, p.gcm.aad_length, tag.data(), 16};
            pa = &gp;
            break;
        case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
            w = ref_ccp_enc(e.k.mat, p.nonce, p.aad, content, &tag);
            cp = {p.ccp.nonce, p.ccp.nonce_length, p.ccp.aad, p.ccp.aad_length, tag.data(), 16};
            pa = &cp;
            break;
        case SA_CIPHER_ALGORITHM_RSA_PKCS1V15: w = rsa_encrypt(e.k.ek.pkey, false, nullptr, nullptr, nullptr, content); break;
        case SA_CIPHER_ALGORITHM_RSA_OAEP:
            p.oaep.digest_algorithm = SA_DIGEST_ALGORITHM_SHA1;   // fits a 1024 bit key
            w = rsa_encrypt(e.k.ek.pkey, true, EVP_sha1(), ref_md(p.oaep.mgf1_digest_algorithm), &p.label, content);
            break;
        default: {
            Bytes x = elgamal_plain(e.k.ek.pkey, e.k.ek.curve, e.r);
            w = elgamal_encrypt(e.k.ek.pkey, e.k.ek.curve, x, e.r);
            size_t off = e.r.below(x.size() - content.size() + 1);
            content.assign(x.begin() + (long) off, x.begin() + (long) (off + content.size()));
            static thread_local sa_unwrap_parameters_ec_elgamal ep;
            ep = {off, content.size()};
            pa = &ep;
            break;
        }
    }
    sa_key k = INVALID_HANDLE;
    sa_status st = e.call([&] {
        return SA(e.s, key_unwrap, &k, &child_rights(e), SA_KEY_TYPE_SYMMETRIC, nullptr, a, pa, e.h, w.data(), w.size());
    });
    return child(e, st, k, &content);
}
static sa_status derive_op(OpEnv& e, int kdf) {
    sa_digest_algorithm d = DIGESTS[e.r.below(4)];
    Bytes salt = e.r.bytes(e.r.len(40)), info = e.r.bytes(e.r.len(40)), expect;
    size_t n = e.r.range(16, 64);
    sa_key k = INVALID_HANDLE, other = INVALID_HANDLE;
    void* pa = nullptr;
    sa_kdf_algorithm alg;
    sa_kdf_parameters_hkdf hk;
    sa_kdf_parameters_concat cc;
    sa_kdf_parameters_ansi_x963 xx;
    sa_kdf_parameters_cmac cm;
    sa_kdf_parameters_netflix nf;
    switch (kdf) {
        case 0:
            alg = SA_KDF_ALGORITHM_HKDF;
            hk = {n, d, e.h, salt.data(), salt.size(), info.data(), info.size()};
            pa = &hk;
            expect = ref_hkdf(d, e.k.mat, salt, info, n);
            break;
        case 1:
            alg = SA_KDF_ALGORITHM_CONCAT;
            cc = {n, d, e.h, info.data(), info.size()};
            pa = &cc;
            expect = ref_concat(d, e.k.mat, info, n, false);
            break;
        case 2:
            alg = SA_KDF_ALGORITHM_ANSI_X963;
            xx = {n, d, e.h, info.data(), info.size()};
            pa = &xx;
            expect = ref_concat(d, e.k.mat, info, n, true);
            break;
        case 3: {
            alg = SA_KDF_ALGORITHM_CMAC;
            uint8_t ctr = (uint8_t) e.r.range(1, 4);
            n = 16 * e.r.range(1, 5 - ctr);
            cm = {n, e.h, info.data(), info.size(), ctr};
            pa = &cm;
            expect = ref_cmac_kdf(e.k.mat, info, ctr, n);
            break;
        }
        default: {
            alg = SA_KDF_ALGORITHM_NETFLIX;
            Bytes om = e.r.bytes(kdf == 4 ? 32 : 16);
            other = helper_sym(e, om);
            nf = kdf == 4 ? sa_kdf_parameters_netflix{e.h, other} : sa_kdf_parameters_netflix{other, e.h};
            pa = &nf;
            expect = kdf == 4 ? ref_netflix_wrap(e.k.mat, om) : ref_netflix_wrap(om, e.k.mat);
            break;
        }
    }
    sa_status st = e.call([&] { return SA(e.s, key_derive, &k, &child_rights(e), alg, pa); });
    if (other != INVALID_HANDLE)
        SA(e.s, key_release, other);
    return child(e, st, k, &expect);
}
static sa_status typej_op(OpEnv& e, bool as_cipher) {
    Bytes om = e.r.bytes(16), content = e.r.bytes(16);
    sa_key other = helper_sym(e, om), k = INVALID_HANDLE;
    sa_import_parameters_typej pa = as_cipher ? sa_import_parameters_typej{e.h, other} : sa_import_parameters_typej{other, e.h};
    Bytes c = as_cipher ? typej_simple(e.k.mat, om, content) : typej_simple(om, e.k.mat, content);
    sa_status st = e.call([&] { return SA(e.s, key_import, &k, SA_KEY_FORMAT_TYPEJ, c.data(), c.size(), &pa); });
    SA(e.s, key_release, other);
    if (st == SA_STATUS_OK) {   // the container's own rights apply to the new key: the header is enough here
        sa_header h;
        if (SA(e.s, key_header, &h, k) != SA_STATUS_OK || h.size != content.size())
            wrong(e, "the imported key has another size");
        SA(e.s, key_release, k);
    } else if (k != INVALID_HANDLE && k != 0)
        viol(strf("key-after-refusal:%s", e.op), "%s was refused but returned a handle", e.op);
    return st;
}
static sa_status rsa_ec_decrypt(OpEnv& e, sa_cipher_algorithm a) {
    CParams p;
    cparams_rand(p, e.r, a);
    Bytes msg = e.r.bytes(e.r.range(1, 40)), ct;
    size_t on;
    if (a == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
        msg = elgamal_plain(e.k.ek.pkey, e.k.ek.curve, e.r);
        ct = elgamal_encrypt(e.k.ek.pkey, e.k.ek.curve, msg, e.r);
        on = msg.size();
    } else {
        if (a == SA_CIPHER_ALGORITHM_RSA_OAEP) {
            p.oaep.digest_algorithm = SA_DIGEST_ALGORITHM_SHA1;
            ct = rsa_encrypt(e.k.ek.pkey, true, EVP_sha1(), ref_md(p.oaep.mgf1_digest_algorithm), &p.label, msg);
        } else
            ct = rsa_encrypt(e.k.ek.pkey, false, nullptr, nullptr, nullptr, msg);
        on = ct.size();
    }
    sa_crypto_cipher_context c = INVALID_HANDLE;
    sa_status st = e.call([&] { return cinit(e.s, &c, a, SA_CIPHER_MODE_DECRYPT, e.h, p); });
    if (st != SA_STATUS_OK)
        return st;
    e.stage = 1;
    if (e.mid)
        e.mid();
    {
        GBuf i(ct), o(on);
        sa_buffer ib = clear_buf(i.p, i.n), ob = clear_buf(o.p, o.n);
        size_t len = ct.size();
        st = e.call([&] { return SA(e.s, crypto_cipher_process, &ob, c, &ib, &len); });
        if (st == SA_STATUS_OK) {
            if (len != msg.size() || memcmp(o.p, msg.data(), len) != 0)
                wrong(e, "the decrypted message differs");
        } else
            untouched(e, o);
    }
    SA(e.s, crypto_cipher_release, c);
    return st;
}
static sa_status sign_op(OpEnv& e, sa_signature_algorithm a) {
    sa_digest_algorithm d = DIGESTS[e.r.below(2)];
    sa_sign_parameters_rsa_pss ps = {d, d, false, 20};
    sa_sign_parameters_rsa_pkcs1v15 p1 = {d, false};
    sa_sign_parameters_ecdsa pe = {d, false};
    const void* pa = a == SA_SIGNATURE_ALGORITHM_RSA_PSS ? (void*) &ps : a == SA_SIGNATURE_ALGORITHM_ECDSA ? (void*) &pe
                     : a == SA_SIGNATURE_ALGORITHM_EDDSA ? nullptr : (void*) &p1;
    Bytes in = e.r.bytes(e.r.range(1, 80));
    size_t sz = e.k.kind == K_RSA ? 128 : 64;
    GBuf o(sz);
    size_t n = sz;
    sa_status st = e.call([&] { return SA(e.s, crypto_sign, o.p, &n, a, e.h, in.data(), in.size(), pa); });
    if (st == SA_STATUS_OK) {
        if (!verify_sig(e.k.ek.pkey, a, ref_md(d), ref_md(d), 20, false, e.k.ek.curve, in, o.get(0, std::min(n, sz))))
            wrong(e, "the signature does not verify");
    } else
        untouched(e, o);
    return st;
}
static EVP_PKEY* pub_from_der(const Bytes& b) {
    const unsigned char* p = b.data();
    return d2i_PUBKEY(nullptr, &p, (long) b.size());
}
// a peer key pair in the device key's DH group
static EVP_PKEY* dh_peer() {
    static EVP_PKEY* k = nullptr;
    static std::once_flag once;
    std::call_once(once, [] {
        const DhGroup& g = dh_group();
        BIGNUM *p = BN_bin2bn(g.p.data(), (int) g.p.size(), nullptr), *gg = BN_bin2bn(g.g.data(), (int) g.g.size(), nullptr);
        OSSL_PARAM_BLD* b = OSSL_PARAM_BLD_new();
        OSSL_PARAM_BLD_push_BN(b, "p", p);
        OSSL_PARAM_BLD_push_BN(b, "g", gg);
        OSSL_PARAM* ps = OSSL_PARAM_BLD_to_param(b);
        EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(nullptr, "DH", nullptr);
        EVP_PKEY* par = nullptr;
        HCHECK(EVP_PKEY_fromdata_init(c) == 1 && EVP_PKEY_fromdata(c, &par, EVP_PKEY_KEY_PARAMETERS, ps) == 1);
        EVP_PKEY_CTX* c2 = EVP_PKEY_CTX_new(par, nullptr);
        HCHECK(EVP_PKEY_keygen_init(c2) == 1 && EVP_PKEY_generate(c2, &k) == 1);
        EVP_PKEY_CTX_free(c2);
        EVP_PKEY_free(par);
        EVP_PKEY_CTX_free(c);
        OSSL_PARAM_free(ps);
        OSSL_PARAM_BLD_free(b);
        BN_free(p);
        BN_free(gg);
    });
    return k;
}
static sa_status exchange_op(OpEnv& e) {
    EVP_PKEY* peer;
    EKey pk;
    if (e.k.kind == K_DH)
        peer = dh_peer();
    else {
        pk = ec_generate(e.r, e.k.ek.curve);
        peer = pk.pkey;
    }
    Bytes der = pub_der(peer), expect;
    sa_key k = INVALID_HANDLE;
    sa_status st = e.call([&] {
        return SA(e.s, key_exchange, &k, &child_rights(e), e.k.kind == K_DH ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH,
                e.h, der.data(), der.size(), nullptr);
    });
    if (st == SA_STATUS_OK) {
        if (e.k.kind == K_DH) {
            if (!e.k.dh_pub.empty()) {
                EVP_PKEY* mine = pub_from_der(e.k.dh_pub);
                HCHECK(mine);
                expect = ref_ecdh(peer, mine);
                EVP_PKEY_free(mine);
            }
        } else
            expect = ref_ecdh(e.k.ek.pkey, peer);
    }
    if (pk.pkey)
        EVP_PKEY_free(pk.pkey);
    return child(e, st, k, expect.empty() ? nullptr : &expect);
}
static sa_status netflix_dh(OpEnv& e, bool as_private) {
    Bytes om;
    sa_key other = INVALID_HANDLE;
    if (as_private)
        other = helper_sym(e, e.r.bytes(16));
    else
        other = helper_dh(e);
    Bytes der = pub_der(dh_peer());
    sa_key k = INVALID_HANDLE, ke = INVALID_HANDLE, kh = INVALID_HANDLE;
    sa_rights r1 = child_rights(e), r2 = child_rights(e);
    if (!e.child) {
        r1.id[0] = 'E';
        r2.id[0] = 'H';
    }
    sa_key_exchange_parameters_netflix_authenticated_dh pa = {as_private ? other : e.h, &ke, &r1, &kh, &r2};
    sa_status st = e.call([&] {
        return SA(e.s, key_exchange, &k, &child_rights(e), SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH,
                as_private ? e.h : other, der.data(), der.size(), &pa);
    });
    if (st == SA_STATUS_OK) {
        child(e, st, ke, nullptr);
        child(e, st, kh, nullptr);
    } else
        for (sa_key x : {ke, kh})
            child(e, st, x, nullptr);
    SA(e.s, key_release, other);
    return child(e, st, k, nullptr);
}
static void build() {
    struct { sa_cipher_algorithm a; unsigned kinds; } cs[] = {{SA_CIPHER_ALGORITHM_AES_ECB, SYM}, {SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SYM},
            {SA_CIPHER_ALGORITHM_AES_CBC, SYM}, {SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SYM}, {SA_CIPHER_ALGORITHM_AES_CTR, SYM},
            {SA_CIPHER_ALGORITHM_AES_GCM, SYM}, {SA_CIPHER_ALGORITHM_CHACHA20, S32}, {SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, S32}};
    for (auto& c : cs)
        for (bool enc : {true, false}) {
            auto a = c.a;
            add(strf("%s:%s", enc ? "encrypt" : "decrypt", alg_name(a)), enc ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT, c.kinds,
                    [a, enc](OpEnv& e) { return cipher_op(e, a, enc); });
            last().clear = true;
            last().svp_able = a != SA_CIPHER_ALGORITHM_AES_GCM && a != SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
            last().sym_cipher = true;
            if (a == SA_CIPHER_ALGORITHM_AES_ECB || a == SA_CIPHER_ALGORITHM_AES_CBC)
                continue;
            bool sa = last().svp_able;
            add(strf("%s_last:%s", enc ? "encrypt" : "decrypt", alg_name(a)), enc ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT, c.kinds,
                    [a, enc](OpEnv& e) { return last_op(e, a, enc); });
            last().clear = last().sym_cipher = true;
            last().svp_able = sa;
        }
    for (bool ctr : {true, false}) {
        add(ctr ? "cenc:CTR" : "cenc:CBC", SA_USAGE_FLAG_DECRYPT, SYM, [ctr](OpEnv& e) { return cenc_op(e, ctr); });
        last().clear = last().svp_able = last().sym_cipher = true;
    }
    add("mac:HMAC", SA_USAGE_FLAG_SIGN, SYM, [](OpEnv& e) { return mac_op(e, SA_MAC_ALGORITHM_HMAC); });
    add("mac:CMAC", SA_USAGE_FLAG_SIGN, SYM, [](OpEnv& e) { return mac_op(e, SA_MAC_ALGORITHM_CMAC); });
    add("mac_process_key", -1, SYM, [](OpEnv& e) {
        Bytes mk = e.r.bytes(32);
        sa_key m = helper_sym(e, mk);
        sa_crypto_mac_context c;
        bool cmac = e.r.coin();
        sa_mac_parameters_hmac hp = {SA_DIGEST_ALGORITHM_SHA256};
        sa_status st = SA(e.s, crypto_mac_init, &c, cmac ? SA_MAC_ALGORITHM_CMAC : SA_MAC_ALGORITHM_HMAC, m, cmac ? nullptr : &hp);
        if (st != SA_STATUS_OK) {
            SA(e.s, key_release, m);
            return st;
        }
        sa_status res = e.call([&] { return SA(e.s, crypto_mac_process_key, c, e.h); });
        Bytes fed = res == SA_STATUS_OK ? e.k.mat : Bytes();
        Bytes expect = cmac ? ref_cmac(mk, fed) : ref_hmac(SA_DIGEST_ALGORITHM_SHA256, mk, fed);
        GBuf o(expect.size());
        size_t n = o.n;
        st = SA(e.s, crypto_mac_compute, o.p, &n, c);
        if (st != SA_STATUS_OK || o.get() != expect)
            wrong(e, strf("the MAC afterwards is not that of the data accepted (process_key gave %s)", status_name(res)));
        SA(e.s, crypto_mac_release, c);
        SA(e.s, key_release, m);
        return res;
    });
    struct { sa_cipher_algorithm a; unsigned kinds; } us[] = {{SA_CIPHER_ALGORITHM_AES_ECB, SYM}, {SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SYM},
            {SA_CIPHER_ALGORITHM_AES_CBC, SYM}, {SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SYM}, {SA_CIPHER_ALGORITHM_AES_CTR, SYM},
            {SA_CIPHER_ALGORITHM_AES_GCM, SYM}, {SA_CIPHER_ALGORITHM_CHACHA20, S32}, {SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, S32},
            {SA_CIPHER_ALGORITHM_RSA_PKCS1V15, RSA_}, {SA_CIPHER_ALGORITHM_RSA_OAEP, RSA_}, {SA_CIPHER_ALGORITHM_EC_ELGAMAL, ECK}};
    for (auto& u : us) {
        auto a = u.a;
        add(strf("unwrap:%s", alg_name(a)), SA_USAGE_FLAG_UNWRAP, u.kinds, [a](OpEnv& e) { return unwrap_op(e, a); });
        last().creates = last().unwraps = true;
    }
    const char* kn[] = {"HKDF", "CONCAT", "X963", "CMAC", "NETFLIX-enc", "NETFLIX-hmac"};
    for (int i = 0; i < 6; i++) {
        add(strf("derive:%s", kn[i]), SA_USAGE_FLAG_DERIVE, i == 4 ? S16 : i == 5 ? S32 : SYM, [i](OpEnv& e) { return derive_op(e, i); });
        last().creates = true;
        last().parent_pos = i != 5;
    }
    add("typej:cipher", SA_USAGE_FLAG_UNWRAP, SYM, [](OpEnv& e) { return typej_op(e, true); });
    add("typej:hmac", SA_USAGE_FLAG_SIGN, SYM, [](OpEnv& e) { return typej_op(e, false); });
    add("decrypt:RSA_PKCS1V15", SA_USAGE_FLAG_DECRYPT, RSA_, [](OpEnv& e) { return rsa_ec_decrypt(e, SA_CIPHER_ALGORITHM_RSA_PKCS1V15); });
    last().clear = true;
    add("decrypt:RSA_OAEP", SA_USAGE_FLAG_DECRYPT, RSA_, [](OpEnv& e) { return rsa_ec_decrypt(e, SA_CIPHER_ALGORITHM_RSA_OAEP); });
    last().clear = true;
    add("decrypt:EC_ELGAMAL", SA_USAGE_FLAG_DECRYPT, ECK, [](OpEnv& e) { return rsa_ec_decrypt(e, SA_CIPHER_ALGORITHM_EC_ELGAMAL); });
    last().clear = true;
    add("sign:RSA_PKCS1V15", SA_USAGE_FLAG_SIGN, RSA_, [](OpEnv& e) { return sign_op(e, SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15); });
    add("sign:RSA_PSS", SA_USAGE_FLAG_SIGN, RSA_, [](OpEnv& e) { return sign_op(e, SA_SIGNATURE_ALGORITHM_RSA_PSS); });
    add("sign:ECDSA", SA_USAGE_FLAG_SIGN, ECK, [](OpEnv& e) { return sign_op(e, SA_SIGNATURE_ALGORITHM_ECDSA); });
    add("sign:EDDSA", SA_USAGE_FLAG_SIGN, EDK, [](OpEnv& e) { return sign_op(e, SA_SIGNATURE_ALGORITHM_EDDSA); });
    add("exchange", SA_USAGE_FLAG_KEY_EXCHANGE, ECK | XK | DHK, [](OpEnv& e) { return exchange_op(e); });
    last().creates = true;
    add("netflix_dh:private", SA_USAGE_FLAG_KEY_EXCHANGE, DHK, [](OpEnv& e) { return netflix_dh(e, true); });
    last().creates = true;
    last().parent_pos = 0;
    add("netflix_dh:in_kw", SA_USAGE_FLAG_DERIVE, S16, [](OpEnv& e) { return netflix_dh(e, false); });
    last().creates = true;
    add("digest", -1, SYM, [](OpEnv& e) {
        sa_digest_algorithm d = DIGESTS[e.r.below(4)];
        GBuf o(digest_len(d));
        size_t n = o.n;
        sa_status st = e.call([&] { return SA(e.s, key_digest, o.p, &n, e.h, d); });
        if (st != SA_STATUS_OK)
            untouched(e, o);
        else if (e.k.kind <= K_SYM32 && o.get() != ref_digest(d, e.k.mat))
            wrong(e, "the digest differs");
        return st;
    });
    add("get_public", -1, RSA_ | ECK | EDK | XK | DHK, [](OpEnv& e) {
        GBuf o(1000);
        size_t n = o.n;
        sa_status st = e.call([&] { return SA(e.s, key_get_public, o.p, &n, e.h); });
        if (st != SA_STATUS_OK)
            untouched(e, o);
        else if (e.k.ek.pkey && o.get(0, n) != pub_der(e.k.ek.pkey))
            wrong(e, "the public key differs");
        return st;
    });
    add("key_check", SA_USAGE_FLAG_DECRYPT, SYM, [](OpEnv& e) {
        Bytes pt = e.r.bytes(16 * e.r.range(1, 1)), ct = ref_ecb(e.k.mat, pt, true);
        secret(pt, "a plaintext");
        GBuf i(ct);
        sa_buffer ib = clear_buf(i.p, i.n);
        return e.call([&] { return SA(e.s, svp_key_check, e.h, &ib, i.n, pt.data(), pt.size()); });
    });
    last().clear = true;
    add("header", -1, ALLK, [](OpEnv& e) {
        sa_header h;
        memset(&h, 0xA5, sizeof h);
        sa_status st = e.call([&] { return SA(e.s, key_header, &h, e.h); });
        if (st == SA_STATUS_OK && !rights_equal(h.rights, e.k.rights))
            wrong(e, "the header reports other rights");
        return st;
    });
    last().load = false;
    add("export", SA_USAGE_FLAG_CACHEABLE, ALLK, [](OpEnv& e) {
        Bytes mix = e.r.bytes(16);
        GBuf o(8000);
        size_t n = o.n;
        bool m = e.r.coin();
        sa_status st = e.call([&] { return SA(e.s, key_export, o.p, &n, m ? mix.data() : nullptr, m ? 16 : 0, e.h); });
        if (st != SA_STATUS_OK)
            untouched(e, o);
        else if (n < 100 || n > o.n)
            wrong(e, "the container has an impossible length");
        return st;
    });
    last().load = false;
}
const std::vector<Op>& ops() {
    static std::once_flag once;
    std::call_once(once, build);
    return g_ops;
}
std::vector<const Op*> ops_for(KK k) {
    std::vector<const Op*> v;
    for (auto& o : ops())
        if (o.kinds & (1u << k))
            v.push_back(&o);
    return v;
}
sa_status run_op(const Op& op, OpEnv& e) {
    e.op = op.name.c_str();
    sa_status st = op.run(e);
    trace("%s on %s key -> %s", op.name.c_str(), kk_name(e.k.kind), status_name(st));
    return st;
}
void ops_warmup(Rng& r) {
    dh_peer();
    for (bool direct : {true, false}) {
        Sess s(direct);
        for (int k = 0; k < K_COUNT; k++) {
            KInfo ki = make_key(s, r, (KK) k, rights_all());
            if (k == K_DH)
                HCHECK(key_pub(s, ki.h, &ki.dh_pub) == SA_STATUS_OK);
            for (auto* o : ops_for((KK) k)) {
                OpEnv e{s, r, ki, ki.h};
                e.check_leak = false;
                sa_status st = run_op(*o, e);
                if (st != SA_STATUS_OK)
                    viol(strf("refused:%s", o->name.c_str()), "%s with a %s key that has every right gave %s", o->name.c_str(),
                            kk_name((KK) k), status_name(st));
            }
            SA(s, key_release, ki.h);
        }
    }
}
bool asym_matches(Sess& s, Rng& r, sa_key k, bool rsa, const EKey& e, std::string* why) {
    sa_header h;
    memset(&h, 0xEE, sizeof h);
    auto no = [&](const std::string& w) { return *why = w, false; };
    sa_status st = SA(s, key_header, &h, k);
    if (st != SA_STATUS_OK)
        return no(strf("header gave %s", status_name(st)));
    size_t size = rsa ? (size_t) EVP_PKEY_get_bits(e.pkey) / 8 : curve_size(e.curve);
    if (h.type != (rsa ? SA_KEY_TYPE_RSA : SA_KEY_TYPE_EC) || h.size != size || (!rsa && h.type_parameters.curve != e.curve))
        return no(strf("header: type %d size %d curve %d, the key has size %zu curve %d", h.type, h.size, h.type_parameters.curve, size, e.curve));
    Bytes pub;
    if ((st = key_pub(s, k, &pub)) != SA_STATUS_OK)
        return no(strf("get_public gave %s", status_name(st)));
    if (pub != pub_der(e.pkey))
        return no("another public key: " + hex(pub));
    bool x = !rsa && (e.curve == SA_ELLIPTIC_CURVE_X25519 || e.curve == SA_ELLIPTIC_CURVE_X448);
    if (x) {
        EKey peer = ec_generate(r, e.curve);
        Bytes pp = pub_der(peer.pkey);
        sa_rights all = rights_all();
        sa_key ss = INVALID_HANDLE;
        st = SA(s, key_exchange, &ss, &all, SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, pp.data(), pp.size(), nullptr);
        Bytes expect = ref_ecdh(peer.pkey, e.pkey);
        EVP_PKEY_free(peer.pkey);
        if (st != SA_STATUS_OK)
            return no(strf("an exchange with it gave %s", status_name(st)));
        bool ok = sym_matches(s, ss, expect, why);
        SA(s, key_release, ss);
        return ok;
    }
    bool ed = !rsa && !curve_is_nist(e.curve);
    sa_signature_algorithm alg = rsa ? SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 : ed ? SA_SIGNATURE_ALGORITHM_EDDSA : SA_SIGNATURE_ALGORITHM_ECDSA;
    sa_sign_parameters_ecdsa ep;
    sa_sign_parameters_rsa_pkcs1v15 rp;
    ep.digest_algorithm = rp.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
    ep.precomputed_digest = rp.precomputed_digest = false;
    Bytes in = r.bytes(r.below(60)), sig;
    st = sign(s, k, alg, in, rsa ? (void*) &rp : ed ? nullptr : (void*) &ep, &sig);
    if (st != SA_STATUS_OK)
        return no(strf("signing with it gave %s", status_name(st)));
    if (!verify_sig(e.pkey, alg, EVP_sha256(), nullptr, 0, false, e.curve, in, sig))
        return no("its signature does not verify");
    return true;
}
