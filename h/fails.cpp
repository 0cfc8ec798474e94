#include "fails.hpp"
World::World(Sess& s, Rng& r) : s(s) {
    for (int i = 0; i < K_COUNT; i++)
        keys.push_back(obj_key(s, r, (KK) i));
    cipher = obj_create(s, r, O_CIPHER);
    mac = obj_create(s, r, O_MAC);
    svp = obj_create(s, r, O_SVP);
    svp2 = obj_create(s, r, O_SVP);
}
World::~World() {
    if (s.open || !s.direct) {
        std::vector<Obj*> all;
        for (auto& x : keys)
            all.push_back(x.get());
        for (auto* x : {&cipher, &mac, &svp, &svp2})
            all.push_back(x->get());
        for (auto* x : all)
            if (x != nullptr)
                quietly([&] { x->release(s); });
    }
}
void World::verify(Rng& r) {
    for (auto& x : keys)
        x->verify(s, r);
    svp->verify(s, r);
    svp2->verify(s, r);
}
void World::use_all(Rng& r) {
    for (auto& x : keys)
        x->use(s, r);
    for (auto* x : {&cipher, &mac, &svp, &svp2})
        (*x)->use(s, r);
    mac->finish(s, r);
}
namespace {
std::vector<FailCall> v;
void F(const char* n, std::function<sa_status(World&, Rng&)> f) { v.push_back({n, std::move(f)}); }
KK rsym(Rng& r) { return r.coin() ? K_SYM16 : K_SYM32; }
KK rany(Rng& r) { return (KK) r.below(K_COUNT); }
KK rnot(Rng& r, std::initializer_list<KK> no) {
    for (;;) {
        KK k = rany(r);
        bool bad = false;
        for (KK x : no)
            bad |= x == k;
        if (!bad)
            return k;
    }
}
// a created handle must not come back from a failure; release it so that the monitor sees the status only
sa_status made(World& w, sa_status st, sa_key k) {
    if (st == SA_STATUS_OK)
        SA(w.s, key_release, k);
    return st;
}
sa_status ctx(World& w, sa_status st, sa_crypto_cipher_context c) {
    if (st == SA_STATUS_OK)
        SA(w.s, crypto_cipher_release, c);
    return st;
}
Bytes exported(World& w, KK k) {
    Bytes o;
    if (key_export(w.s, w.h(k), nullptr, &o) != SA_STATUS_OK)
        viol("use-refused:export", "export of a cacheable key refused");
    return o;
}
sa_status import(World& w, sa_key_format f, const void* p, size_t n, void* pa) {
    sa_key k = INVALID_HANDLE;
    return made(w, SA(w.s, key_import, &k, f, p, n, pa), k);
}
sa_status derive(World& w, sa_kdf_algorithm a, void* pa) {
    static const sa_rights all = rights_all();
    sa_key k = INVALID_HANDLE;
    return made(w, SA(w.s, key_derive, &k, &all, a, pa), k);
}
sa_status unwrap(World& w, sa_key_type t, void* tp, sa_cipher_algorithm a, void* pa, sa_key wk, const Bytes& in) {
    static const sa_rights all = rights_all();
    sa_key k = INVALID_HANDLE;
    return made(w, SA(w.s, key_unwrap, &k, &all, t, tp, a, pa, wk, in.data(), in.size()), k);
}
sa_status exchange(World& w, sa_key_exchange_algorithm a, sa_key priv, const Bytes& pub, void* pa = nullptr) {
    static const sa_rights all = rights_all();
    sa_key k = INVALID_HANDLE;
    return made(w, SA(w.s, key_exchange, &k, &all, a, priv, pub.data(), pub.size(), pa), k);
}
sa_status process(World& w, Rng& r, sa_buffer* ob, sa_buffer* ib, size_t n, bool lastp) {
    size_t len = n;
    return lastp ? SA(w.s, crypto_cipher_process_last, ob, w.cipher->h, ib, &len, nullptr) :
                   SA(w.s, crypto_cipher_process, ob, w.cipher->h, ib, &len);
}
void build() {
    static sa_rights all = rights_all();
    static uint8_t junk[4096];
    Rng jr(5);
    jr.fill(junk, sizeof junk);
    // ---- import
    F("import:no-output", [](World& w, Rng&) { sa_import_parameters_symmetric p = {&all};
        return SA(w.s, key_import, nullptr, SA_KEY_FORMAT_SYMMETRIC_BYTES, junk, 16, &p); });
    F("import:no-input", [](World& w, Rng& r) {
        union {
            sa_import_parameters_symmetric sym;
            sa_import_parameters_soc soc;
        } p;
        memset(&p, 0, sizeof p);
        p.sym.rights = &all;
        return import(w, r.pick({SA_KEY_FORMAT_SYMMETRIC_BYTES, SA_KEY_FORMAT_EXPORTED, SA_KEY_FORMAT_SOC}), nullptr, 16, &p); });
    F("import:no-parameters", [](World& w, Rng& r) {
        return import(w, r.pick({SA_KEY_FORMAT_SYMMETRIC_BYTES, SA_KEY_FORMAT_EC_PRIVATE_BYTES, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO,
                SA_KEY_FORMAT_TYPEJ}), junk, 16, nullptr); });
    F("import:no-rights", [](World& w, Rng&) { sa_import_parameters_symmetric p = {nullptr};
        return import(w, SA_KEY_FORMAT_SYMMETRIC_BYTES, junk, 16, &p); });
    F("import:sym-size", [](World& w, Rng& r) { sa_import_parameters_symmetric p = {&all};
        return import(w, SA_KEY_FORMAT_SYMMETRIC_BYTES, junk, r.pick({0, 1, 15, 513, 1000}), &p); });
    F("import:format", [](World& w, Rng& r) { sa_import_parameters_symmetric p = {&all};
        return import(w, (sa_key_format) r.pick({7, 8, 100, 255, 65536}), junk, 16, &p); });
    F("import:ec-junk", [](World& w, Rng& r) { sa_import_parameters_ec_private_bytes p = {&all, r.pick(curves_all())};
        return import(w, SA_KEY_FORMAT_EC_PRIVATE_BYTES, junk, r.pick({0, 1, 32, 48, 121, 400}), &p); });
    F("import:ec-curve", [](World& w, Rng& r) { sa_import_parameters_ec_private_bytes p = {&all, (sa_elliptic_curve) r.pick({1, 2, 5, 9, 77})};
        const Bytes& m = w.k(K_EC256).ek.priv;
        return import(w, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.data(), m.size(), &p); });
    F("import:ec-truncated", [](World& w, Rng& r) { sa_import_parameters_ec_private_bytes p = {&all, SA_ELLIPTIC_CURVE_NIST_P256};
        const Bytes& m = w.k(K_EC256).ek.priv;
        return import(w, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.data(), r.below(m.size()), &p); });
    F("import:ec-is-rsa", [](World& w, Rng&) { sa_import_parameters_ec_private_bytes p = {&all, SA_ELLIPTIC_CURVE_NIST_P256};
        const Bytes& m = w.k(K_RSA).ek.priv;
        return import(w, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.data(), m.size(), &p); });
    F("import:rsa-junk", [](World& w, Rng& r) { sa_import_parameters_rsa_private_key_info p = {&all};
        return import(w, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, junk, r.pick({0, 1, 64, 600}), &p); });
    F("import:rsa-truncated", [](World& w, Rng& r) { sa_import_parameters_rsa_private_key_info p = {&all};
        const Bytes& m = w.k(K_RSA).ek.priv;
        return import(w, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, m.data(), r.below(m.size()), &p); });
    F("import:rsa-is-ec", [](World& w, Rng&) { sa_import_parameters_rsa_private_key_info p = {&all};
        const Bytes& m = w.k(K_EC256).ek.priv;
        return import(w, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, m.data(), m.size(), &p); });
    F("import:exported-changed", [](World& w, Rng& r) {
        Bytes b = exported(w, rany(r));
        b[r.below(b.size())] ^= (uint8_t) (1u << r.below(8));
        return import(w, SA_KEY_FORMAT_EXPORTED, b.data(), b.size(), nullptr); });
    F("import:exported-truncated", [](World& w, Rng& r) {
        Bytes b = exported(w, rany(r));
        return import(w, SA_KEY_FORMAT_EXPORTED, b.data(), r.below(b.size()), nullptr); });
    F("import:typej-junk", [](World& w, Rng& r) { sa_import_parameters_typej p = {w.h(K_SYM16), w.h(K_SYM32)};
        return import(w, SA_KEY_FORMAT_TYPEJ, junk, r.pick({1, 20, 300}), &p); });
    F("import:typej-mac", [](World& w, Rng& r) { sa_import_parameters_typej p = {w.h(K_SYM16), w.h(K_SYM32)};
        Bytes c = typej_simple(w.k(K_SYM16).mat, r.bytes(32), r.bytes(16));
        return import(w, SA_KEY_FORMAT_TYPEJ, c.data(), c.size(), &p); });
    F("import:typej-keys", [](World& w, Rng& r) {
        sa_import_parameters_typej p = {w.h(rnot(r, {K_SYM16, K_SYM32})), w.h(K_SYM32)};
        if (r.coin())
            p = {w.h(K_SYM16), w.h(r.coin() ? K_SYM16 : rnot(r, {K_SYM32}))};
        Bytes c = typej_simple(w.k(K_SYM16).mat, w.k(K_SYM32).mat, r.bytes(16));
        return import(w, SA_KEY_FORMAT_TYPEJ, c.data(), c.size(), &p); });
    F("import:soc-junk", [](World& w, Rng& r) {
        sa_import_parameters_soc p;
        memset(&p, 0, sizeof p);
        p.length[0] = sizeof p >> 8;
        p.length[1] = sizeof p & 255;
        p.version = 2;
        return import(w, SA_KEY_FORMAT_SOC, junk, r.pick({1, 20, 300}), r.coin() ? &p : nullptr); });
    // ---- generate
    F("generate:no-output", [](World& w, Rng&) { sa_generate_parameters_symmetric p = {16};
        return SA(w.s, key_generate, nullptr, &all, SA_KEY_TYPE_SYMMETRIC, &p); });
    F("generate:no-rights", [](World& w, Rng&) { sa_generate_parameters_symmetric p = {16}; sa_key k = 0;
        return made(w, SA(w.s, key_generate, &k, nullptr, SA_KEY_TYPE_SYMMETRIC, &p), k); });
    F("generate:no-parameters", [](World& w, Rng& r) { sa_key k = 0;
        return made(w, SA(w.s, key_generate, &k, &all, (sa_key_type) r.below(4), nullptr), k); });
    F("generate:type", [](World& w, Rng& r) { sa_generate_parameters_symmetric p = {16}; sa_key k = 0;
        return made(w, SA(w.s, key_generate, &k, &all, (sa_key_type) r.pick({4, 9, 255}), &p), k); });
    F("generate:sym-size", [](World& w, Rng& r) { sa_generate_parameters_symmetric p = {r.pick({(size_t) 0, (size_t) 15, (size_t) 513, SIZE_MAX})};
        sa_key k = 0;
        return made(w, SA(w.s, key_generate, &k, &all, SA_KEY_TYPE_SYMMETRIC, &p), k); });
    F("generate:rsa-size", [](World& w, Rng& r) { sa_generate_parameters_rsa p = {r.pick({(size_t) 0, (size_t) 64, (size_t) 127, (size_t) 129,
            (size_t) 1024, SIZE_MAX})};
        sa_key k = 0;
        return made(w, SA(w.s, key_generate, &k, &all, SA_KEY_TYPE_RSA, &p), k); });
    F("generate:ec-curve", [](World& w, Rng& r) { sa_generate_parameters_ec p = {(sa_elliptic_curve) r.pick({9, 50, 1 << 20})}; sa_key k = 0;
        return made(w, SA(w.s, key_generate, &k, &all, SA_KEY_TYPE_EC, &p), k); });
    F("generate:dh", [](World& w, Rng& r) {
        const DhGroup& g = dh_group();
        sa_generate_parameters_dh p = {g.p.data(), g.p.size(), g.g.data(), g.g.size()};
        Bytes z(600, 0);
        switch (r.below(6)) {
            case 0: p.p = nullptr; break;
            case 1: p.g = nullptr; break;
            case 2: p.p = z.data(); p.p_length = 600; break;
            case 3: p.p_length = 0; break;
            case 4: p.g_length = 513; p.g = z.data(); break;
            default: p.g_length = 0; break;
        }
        sa_key k = 0;
        return made(w, SA(w.s, key_generate, &k, &all, SA_KEY_TYPE_DH, &p), k); });
    // ---- export, public, header, digest, release
    F("export:short", [](World& w, Rng& r) {
        KK k = rany(r);
        size_t n = 0;
        if (SA(w.s, key_export, nullptr, &n, nullptr, 0, w.h(k)) != SA_STATUS_OK)
            viol("use-refused:export", "size query refused");
        n = r.below(n);
        GBuf o(n);
        return SA(w.s, key_export, o.p, &n, nullptr, 0, w.h(k)); });
    F("export:mixin", [](World& w, Rng& r) {
        Bytes o(8000);
        size_t n = o.size(), m = r.pick({0, 1, 15, 17, 32});
        return SA(w.s, key_export, o.data(), &n, junk, m, w.h(rany(r))); });
    F("export:no-length", [](World& w, Rng& r) { return SA(w.s, key_export, junk, nullptr, nullptr, 0, w.h(rany(r))); });
    F("public:symmetric", [](World& w, Rng& r) { Bytes o(900); size_t n = o.size(); return SA(w.s, key_get_public, o.data(), &n, w.h(rsym(r))); });
    F("public:short", [](World& w, Rng& r) {
        KK k = rnot(r, {K_SYM16, K_SYM32});
        size_t n = 0;
        if (SA(w.s, key_get_public, nullptr, &n, w.h(k)) != SA_STATUS_OK)
            viol("use-refused:get_public", "size query refused");
        n = r.below(n);
        GBuf o(n);
        return SA(w.s, key_get_public, o.p, &n, w.h(k)); });
    F("public:no-length", [](World& w, Rng& r) { return SA(w.s, key_get_public, junk, nullptr, w.h(K_RSA)); });
    F("header:none", [](World& w, Rng& r) { return SA(w.s, key_header, nullptr, w.h(rany(r))); });
    F("header:handle", [](World& w, Rng& r) { sa_header h; return SA(w.s, key_header, &h, r.pick({(sa_key) 200, (sa_key) 256, (sa_key) 1 << 32,
            INVALID_HANDLE, (sa_key) 1 << 32 | 31})); });
    F("digest:type", [](World& w, Rng& r) { uint8_t o[64]; size_t n = 64;
        return SA(w.s, key_digest, o, &n, w.h(rnot(r, {K_SYM16, K_SYM32})), DIGESTS[r.below(4)]); });
    F("digest:short", [](World& w, Rng& r) { sa_digest_algorithm d = DIGESTS[r.below(4)]; size_t n = r.below(digest_len(d)); GBuf o(n);
        return SA(w.s, key_digest, o.p, &n, w.h(rsym(r)), d); });
    F("digest:algorithm", [](World& w, Rng& r) { uint8_t o[64]; size_t n = 64;
        return SA(w.s, key_digest, o, &n, w.h(rsym(r)), (sa_digest_algorithm) r.pick({4, 77})); });
    F("release:handle", [](World& w, Rng& r) {
        sa_handle h = r.pick({(sa_handle) 200, (sa_handle) 256, INVALID_HANDLE, (sa_handle) 1 << 32});
        void* m = nullptr;
        size_t z = 0;
        switch (r.below(4)) {
            case 0: return SA(w.s, key_release, h);
            case 1: return SA(w.s, crypto_cipher_release, h);
            case 2: return SA(w.s, crypto_mac_release, h);
            default: return SA(w.s, svp_buffer_release, &m, &z, h);
        } });
    F("svp-release:no-output", [](World& w, Rng& r) { void* m = nullptr; size_t z = 0;
        return r.coin() ? SA(w.s, svp_buffer_release, nullptr, &z, w.svp->h) : SA(w.s, svp_buffer_release, &m, nullptr, w.svp->h); });
    // ---- derive
    F("derive:no-parameters", [](World& w, Rng& r) { return derive(w, (sa_kdf_algorithm) r.below(7), nullptr); });
    F("derive:algorithm", [](World& w, Rng& r) { sa_kdf_parameters_hkdf p = {16, SA_DIGEST_ALGORITHM_SHA1, w.h(K_SYM16), junk, 4, junk, 4};
        return derive(w, (sa_kdf_algorithm) r.pick({7, 99}), &p); });
    F("derive:hkdf", [](World& w, Rng& r) {
        sa_kdf_parameters_hkdf p = {16, DIGESTS[r.below(4)], w.h(rsym(r)), junk, 4, junk, 4};
        switch (r.below(5)) {
            case 0: p.parent = w.h(rnot(r, {K_SYM16, K_SYM32})); break;
            case 1: p.key_length = r.pick({0, 1, 15, 513, 16384}); break;
            case 2: p.digest_algorithm = (sa_digest_algorithm) r.pick({4, 66}); break;
            case 3: p.salt = nullptr; p.salt_length = 4; break;
            default: p.info = nullptr; p.info_length = 4; break;
        }
        return derive(w, SA_KDF_ALGORITHM_HKDF, &p); });
    F("derive:concat", [](World& w, Rng& r) {
        sa_kdf_parameters_concat p = {16, DIGESTS[r.below(4)], w.h(rsym(r)), junk, 4};
        switch (r.below(4)) {
            case 0: p.parent = w.h(rnot(r, {K_SYM16, K_SYM32})); break;
            case 1: p.key_length = r.pick({0, 1, 15, 513, 16384}); break;
            case 2: p.digest_algorithm = (sa_digest_algorithm) r.pick({4, 66}); break;
            default: p.info = nullptr; p.info_length = 4; break;
        }
        return derive(w, SA_KDF_ALGORITHM_CONCAT, &p); });
    F("derive:x963", [](World& w, Rng& r) {
        sa_kdf_parameters_ansi_x963 p = {16, DIGESTS[r.below(4)], w.h(rsym(r)), junk, 4};
        switch (r.below(4)) {
            case 0: p.parent = w.h(rnot(r, {K_SYM16, K_SYM32})); break;
            case 1: p.key_length = r.pick({0, 1, 15, 513, 16384}); break;
            case 2: p.digest_algorithm = (sa_digest_algorithm) r.pick({4, 66}); break;
            default: p.info = nullptr; p.info_length = 4; break;
        }
        return derive(w, SA_KDF_ALGORITHM_ANSI_X963, &p); });
    F("derive:cmac", [](World& w, Rng& r) {
        sa_kdf_parameters_cmac p = {16, w.h(rsym(r)), junk, 4, 1};
        switch (r.below(4)) {
            case 0: p.parent = w.h(rnot(r, {K_SYM16, K_SYM32})); break;
            case 1: p.key_length = r.pick({0, 15, 17, 33, 80, 4096}); break;
            case 2: p.counter = r.pick({(uint8_t) 0, (uint8_t) 5, (uint8_t) 255}); break;
            default: p.other_data = nullptr; break;
        }
        return derive(w, SA_KDF_ALGORITHM_CMAC, &p); });
    F("derive:netflix", [](World& w, Rng& r) {
        sa_kdf_parameters_netflix p = {w.h(K_SYM16), w.h(K_SYM32)};
        if (r.coin())
            p.kenc = w.h(rnot(r, {K_SYM16, K_SYM32}));
        else
            p.khmac = w.h(rnot(r, {K_SYM16, K_SYM32}));
        return derive(w, SA_KDF_ALGORITHM_NETFLIX, &p); });
    F("derive:ladder", [](World& w, Rng& r) {
        const void* c[4] = {junk, junk + 16, junk + 32, junk + 48};
        size_t n[4] = {16, 16, 16, 16};
        size_t i = r.below(4);
        if (r.coin())
            c[i] = nullptr;
        else
            n[i] = r.pick({0, 15, 17});
        sa_kdf_parameters_root_key_ladder p = {c[0], n[0], c[1], n[1], c[2], n[2], c[3], n[3]};
        return derive(w, r.coin() ? SA_KDF_ALGORITHM_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER, &p); });
    // ---- exchange
    F("exchange:junk", [](World& w, Rng& r) {
        KK k = r.pick({K_DH, K_EC256, K_X25519});
        return exchange(w, k == K_DH ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH, w.h(k), r.bytes(r.pick({1, 32, 91, 200}))); });
    F("exchange:other-type", [](World& w, Rng& r) {
        KK k = r.pick({K_DH, K_EC256, K_X25519}), o = rnot(r, {k, K_SYM16, K_SYM32});
        Bytes pub;
        if (key_pub(w.s, w.h(o), &pub) != SA_STATUS_OK)
            viol("use-refused:get_public", "refused");
        return exchange(w, k == K_DH ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH, w.h(k), pub); });
    F("exchange:key-type", [](World& w, Rng& r) {
        bool dh = r.coin();
        Bytes pub = pub_der(w.k(K_EC256).ek.pkey);
        return exchange(w, dh ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH, w.h(dh ? rnot(r, {K_DH}) : rnot(r, {K_EC256})), pub); });
    F("exchange:algorithm", [](World& w, Rng& r) {
        return exchange(w, (sa_key_exchange_algorithm) r.pick({3, 44}), w.h(K_EC256), pub_der(w.k(K_EC256).ek.pkey)); });
    F("exchange:netflix", [](World& w, Rng& r) {
        sa_key ke = INVALID_HANDLE, kh = INVALID_HANDLE;
        sa_rights re = rights_all(), rh = rights_all();
        sa_key_exchange_parameters_netflix_authenticated_dh p = {w.h(K_SYM16), &ke, &re, &kh, &rh};
        Bytes pub = w.k(K_DH).dh_pub;
        KK priv = K_DH;
        switch (r.below(7)) {
            case 0: p.in_kw = w.h(rnot(r, {K_SYM16, K_SYM32})); break;
            case 1: p.out_ke = nullptr; break;
            case 2: p.out_kh = nullptr; break;
            case 3: p.rights_ke = nullptr; break;
            case 4: p.rights_kh = nullptr; break;
            case 5: pub = r.bytes(60); break;
            default: priv = rnot(r, {K_DH}); break;
        }
        static const sa_rights all2 = rights_all();
        sa_status st = SA(w.s, key_exchange, nullptr, &all2, SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, w.h(priv), pub.data(),
                pub.size(), &p);
        if (st == SA_STATUS_OK) {
            SA(w.s, key_release, ke);
            SA(w.s, key_release, kh);
        }
        return st; });
    // ---- unwrap
    F("unwrap:junk", [](World& w, Rng& r) {
        CParams p;
        sa_cipher_algorithm a = r.pick({SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_CTR});
        cparams_rand(p, r, a);
        sa_unwrap_type_parameters_ec tp = {SA_ELLIPTIC_CURVE_NIST_P256};
        bool ec = r.coin();
        return unwrap(w, ec ? SA_KEY_TYPE_EC : SA_KEY_TYPE_RSA, ec ? &tp : nullptr, a, p.ptr, w.h(rsym(r)), r.bytes(16 * r.range(3, 40))); });
    F("unwrap:padding", [](World& w, Rng& r) {
        CParams p;
        KK k = rsym(r);
        bool cbc = r.coin();
        cparams_rand(p, r, cbc ? SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 : SA_CIPHER_ALGORITHM_AES_ECB_PKCS7);
        Bytes pt = r.bytes(32);
        pt[31] = r.pick({(uint8_t) 0, (uint8_t) 17, (uint8_t) 255});
        Bytes c = cbc ? ref_cbc(w.k(k).mat, p.iv, pt, true) : ref_ecb(w.k(k).mat, pt, true);
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, cbc ? SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 : SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, p.ptr,
                w.h(k), c); });
    F("unwrap:length", [](World& w, Rng& r) {
        CParams p;
        sa_cipher_algorithm a = r.pick({SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7,
                SA_CIPHER_ALGORITHM_AES_ECB_PKCS7});
        cparams_rand(p, r, a);
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, a, p.ptr, w.h(rsym(r)), r.bytes(16 * r.range(1, 3) + r.range(1, 15))); });
    F("unwrap:tag", [](World& w, Rng& r) {
        Bytes iv = r.bytes(12), tag = r.bytes(17), c = r.bytes(16);
        if (r.coin()) {
            sa_unwrap_parameters_aes_gcm p = {iv.data(), 12, nullptr, 0, tag.data(), r.pick({(size_t) 16, (size_t) 16, (size_t) 17})};
            return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_GCM, &p, w.h(rsym(r)), c);
        }
        sa_unwrap_parameters_chacha20_poly1305 p = {iv.data(), 12, nullptr, 0, tag.data(), r.pick({(size_t) 16, (size_t) 16, (size_t) 12})};
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, &p, w.h(K_SYM32), c); });
    F("unwrap:key-type", [](World& w, Rng& r) {
        CParams p;
        sa_cipher_algorithm a = (sa_cipher_algorithm) r.below(11);
        cparams_rand(p, r, a);
        KK k;
        switch (a) {
            case SA_CIPHER_ALGORITHM_RSA_PKCS1V15:
            case SA_CIPHER_ALGORITHM_RSA_OAEP: k = rnot(r, {K_RSA}); break;
            case SA_CIPHER_ALGORITHM_EC_ELGAMAL: k = rnot(r, {K_EC256}); break;
            default: k = rnot(r, {K_SYM16, K_SYM32}); break;
        }
        sa_unwrap_parameters_ec_elgamal ep = {0, 16};
        Bytes t = r.bytes(16);
        sa_unwrap_parameters_aes_gcm gp = {p.gcm.iv, p.gcm.iv_length, nullptr, 0, t.data(), 16};
        sa_unwrap_parameters_chacha20_poly1305 cp = {p.ccp.nonce, p.ccp.nonce_length, nullptr, 0, t.data(), 16};
        void* pa = a == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? &ep : a == SA_CIPHER_ALGORITHM_AES_GCM ? &gp :
                a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305 ? (void*) &cp : p.ptr;
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, a, pa, w.h(k), r.bytes(128)); });
    F("unwrap:rsa", [](World& w, Rng& r) {
        CParams p;
        cparams_rand(p, r, SA_CIPHER_ALGORITHM_RSA_OAEP);
        size_t n = w.k(K_RSA).ek.bits / 8;
        bool oaep = r.coin();
        Bytes c = r.bytes(r.pick({n - 1, n + 1, n, (size_t) 0, (size_t) 1}));
        if (!oaep && c.size() == n)   // a random block decrypts to random bytes: without padding that is an error in OAEP only
            oaep = true;
        if (c.size() == n)
            c[0] = 0;
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, oaep ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15,
                oaep ? p.ptr : nullptr, w.h(K_RSA), c); });
    F("unwrap:label", [](World& w, Rng& r) {
        sa_unwrap_parameters_rsa_oaep p = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA1, nullptr, (size_t) r.range(1, 40)};
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_RSA_OAEP, &p, w.h(K_RSA), r.bytes(w.k(K_RSA).ek.bits / 8)); });
    F("cipher-init:label", [](World& w, Rng& r) {
        sa_cipher_parameters_rsa_oaep p = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA1, nullptr, (size_t) r.range(1, 40)};
        sa_crypto_cipher_context c = 0;
        sa_status st = SA(w.s, crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_MODE_DECRYPT, w.h(K_RSA), &p);
        if (st == SA_STATUS_OK)
            SA(w.s, crypto_cipher_release, c);
        return st; });
    F("unwrap:elgamal", [](World& w, Rng& r) {
        sa_unwrap_parameters_ec_elgamal ep = {r.pick({(size_t) 0, (size_t) 17, SIZE_MAX}), 16};
        Bytes x = elgamal_plain(w.k(K_EC256).ek.pkey, SA_ELLIPTIC_CURVE_NIST_P256, r);
        Bytes c = elgamal_encrypt(w.k(K_EC256).ek.pkey, SA_ELLIPTIC_CURVE_NIST_P256, x, r);
        if (ep.offset == 0) {
            if (r.coin())
                c = r.bytes(128);
            else
                c.resize(r.pick({0, 1, 64, 127, 129}));
        }
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_EC_ELGAMAL, &ep, w.h(K_EC256), c); });
    F("unwrap:elgamal-other-type", [](World& w, Rng& r) {
        sa_unwrap_parameters_ec_elgamal ep = {0, 16};
        sa_unwrap_type_parameters_ec tp = {SA_ELLIPTIC_CURVE_NIST_P256};
        Bytes x = elgamal_plain(w.k(K_EC256).ek.pkey, SA_ELLIPTIC_CURVE_NIST_P256, r);
        Bytes c = elgamal_encrypt(w.k(K_EC256).ek.pkey, SA_ELLIPTIC_CURVE_NIST_P256, x, r);
        bool ec = r.coin();
        return unwrap(w, ec ? SA_KEY_TYPE_EC : SA_KEY_TYPE_RSA, ec ? &tp : nullptr, SA_CIPHER_ALGORITHM_EC_ELGAMAL, &ep, w.h(K_EC256), c); });
    F("unwrap:type", [](World& w, Rng& r) { return unwrap(w, (sa_key_type) r.pick({3, 4, 99}), nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr,
            w.h(rsym(r)), r.bytes(32)); });
    F("unwrap:algorithm", [](World& w, Rng& r) { return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, (sa_cipher_algorithm) r.pick({11, 99}), junk,
            w.h(rsym(r)), r.bytes(32)); });
    F("unwrap:no-parameters", [](World& w, Rng& r) {
        sa_cipher_algorithm a = r.pick({SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM,
                SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_ALGORITHM_EC_ELGAMAL});
        KK k = a == SA_CIPHER_ALGORITHM_RSA_OAEP ? K_RSA : a == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? K_EC256 : K_SYM32;
        return unwrap(w, SA_KEY_TYPE_SYMMETRIC, nullptr, a, nullptr, w.h(k), r.bytes(128)); });
    F("unwrap:no-input", [](World& w, Rng& r) { sa_key k = 0;
        return made(w, SA(w.s, key_unwrap, &k, &all, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, w.h(rsym(r)), nullptr,
                16), k); });
    // ---- ciphers
    F("cipher-init:key-type", [](World& w, Rng& r) {
        CParams p;
        sa_cipher_algorithm a = (sa_cipher_algorithm) r.below(11);
        cparams_rand(p, r, a);
        KK k;
        switch (a) {
            case SA_CIPHER_ALGORITHM_RSA_PKCS1V15:
            case SA_CIPHER_ALGORITHM_RSA_OAEP: k = rnot(r, {K_RSA}); break;
            case SA_CIPHER_ALGORITHM_EC_ELGAMAL: k = rnot(r, {K_EC256}); break;
            case SA_CIPHER_ALGORITHM_CHACHA20:
            case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: k = rnot(r, {K_SYM32}); break;
            default: k = rnot(r, {K_SYM16, K_SYM32}); break;
        }
        sa_crypto_cipher_context c = INVALID_HANDLE;
        return ctx(w, cinit(w.s, &c, a, SA_CIPHER_MODE_DECRYPT, w.h(k), p), c); });
    F("cipher-init:algorithm", [](World& w, Rng& r) { sa_crypto_cipher_context c = INVALID_HANDLE;
        return ctx(w, SA(w.s, crypto_cipher_init, &c, (sa_cipher_algorithm) r.pick({11, 80}), SA_CIPHER_MODE_DECRYPT, w.h(rany(r)), junk), c); });
    F("cipher-init:mode", [](World& w, Rng& r) { sa_crypto_cipher_context c = INVALID_HANDLE;
        return ctx(w, SA(w.s, crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_ECB, (sa_cipher_mode) r.pick({2, 9}), w.h(rsym(r)), nullptr), c); });
    F("cipher-init:rsa-encrypt", [](World& w, Rng& r) { sa_crypto_cipher_context c = INVALID_HANDLE; CParams p;
        sa_cipher_algorithm a = r.pick({SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_ALGORITHM_EC_ELGAMAL});
        cparams_rand(p, r, a);
        return ctx(w, cinit(w.s, &c, a, SA_CIPHER_MODE_ENCRYPT, w.h(a == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? K_EC256 : K_RSA), p), c); });
    F("cipher-init:no-output", [](World& w, Rng& r) {
        return SA(w.s, crypto_cipher_init, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_DECRYPT, w.h(rsym(r)), nullptr); });
    F("cipher-init:no-parameters", [](World& w, Rng& r) { sa_crypto_cipher_context c = INVALID_HANDLE;
        sa_cipher_algorithm a = r.pick({SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR,
                SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, SA_CIPHER_ALGORITHM_RSA_OAEP});
        return ctx(w, SA(w.s, crypto_cipher_init, &c, a, SA_CIPHER_MODE_DECRYPT, w.h(a == SA_CIPHER_ALGORITHM_RSA_OAEP ? K_RSA : K_SYM32),
                nullptr), c); });
    F("cipher-init:iv", [](World& w, Rng& r) {
        sa_crypto_cipher_context c = INVALID_HANDLE;
        sa_cipher_mode m = r.coin() ? SA_CIPHER_MODE_DECRYPT : SA_CIPHER_MODE_ENCRYPT;
        bool null = r.coin();
        switch (r.below(5)) {
            case 0: { sa_cipher_parameters_aes_cbc p = {null ? nullptr : junk, null ? (size_t) 16 : r.pick({(size_t) 0, (size_t) 15, (size_t) 17})};
                return ctx(w, SA(w.s, crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_CBC, m, w.h(rsym(r)), &p), c); }
            case 1: { sa_cipher_parameters_aes_ctr p = {null ? nullptr : junk, null ? (size_t) 16 : r.pick({(size_t) 0, (size_t) 15, (size_t) 17})};
                return ctx(w, SA(w.s, crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_CTR, m, w.h(rsym(r)), &p), c); }
            case 2: { sa_cipher_parameters_aes_gcm p = {null ? nullptr : junk, null ? (size_t) 12 : r.pick({(size_t) 0, (size_t) 11, (size_t) 16}),
                    nullptr, 0};
                return ctx(w, SA(w.s, crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_AES_GCM, m, w.h(rsym(r)), &p), c); }
            case 3: { sa_cipher_parameters_chacha20 p = {junk, 4, null ? nullptr : junk, 12};
                if (!null) {
                    if (r.coin())
                        p.counter_length = r.pick({0, 3, 5, 16});
                    else
                        p.nonce_length = r.pick({0, 8, 16});
                }
                return ctx(w, SA(w.s, crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_CHACHA20, m, w.h(K_SYM32), &p), c); }
            default: { sa_cipher_parameters_chacha20_poly1305 p = {null ? nullptr : junk, null ? (size_t) 12 : r.pick({(size_t) 0, (size_t) 8, (size_t) 16}),
                    nullptr, 0};
                return ctx(w, SA(w.s, crypto_cipher_init, &c, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, m, w.h(K_SYM32), &p), c); }
        } });
    for (int lp = 0; lp < 2; lp++) {
        const char* n = lp ? "process_last" : "process";
        bool L = lp;
        F(strf("%s:no-input", n).c_str(), [L](World& w, Rng& r) { GBuf o(64); sa_buffer ob = clear_buf(o.p, 64); return process(w, r, &ob, nullptr, 16, L); });
        F(strf("%s:no-length", n).c_str(), [L](World& w, Rng& r) { GBuf o(64); sa_buffer ob = clear_buf(o.p, 64), ib = clear_buf(junk, 64);
            return L ? SA(w.s, crypto_cipher_process_last, &ob, w.cipher->h, &ib, nullptr, nullptr) :
                       SA(w.s, crypto_cipher_process, &ob, w.cipher->h, &ib, nullptr); });
        F(strf("%s:input-null", n).c_str(), [L](World& w, Rng& r) { GBuf o(64); sa_buffer ob = clear_buf(o.p, 64), ib = clear_buf(nullptr, 16);
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:input-short", n).c_str(), [L](World& w, Rng& r) { GBuf o(64), i(16); sa_buffer ob = clear_buf(o.p, 64);
            sa_buffer ib = clear_buf(i.p, 16, r.range(1, 16));
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:input-offset", n).c_str(), [L](World& w, Rng& r) { GBuf o(64), i(16); sa_buffer ob = clear_buf(o.p, 64);
            sa_buffer ib = clear_buf(i.p, 16, r.pick({SIZE_MAX, SIZE_MAX - 15, (size_t) 17}));
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:output-short", n).c_str(), [L](World& w, Rng& r) { GBuf o(15), i(16); sa_buffer ob = clear_buf(o.p, 15, r.below(3)), ib = clear_buf(i.p, 16);
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:output-offset", n).c_str(), [L](World& w, Rng& r) { GBuf o(32), i(16);
            sa_buffer ob = clear_buf(o.p, 32, r.pick({SIZE_MAX, SIZE_MAX - 15, (size_t) 17, (size_t) 33})), ib = clear_buf(i.p, 16);
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:output-null", n).c_str(), [L](World& w, Rng& r) { GBuf i(16); sa_buffer ob = clear_buf(nullptr, 16), ib = clear_buf(i.p, 16);
            if (L) {   // a size query there: make it an error
                ib.context.clear.offset = 99;
            }
            ib.context.clear.offset = 99;
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:buffer-type", n).c_str(), [L](World& w, Rng& r) { GBuf o(64), i(16); sa_buffer ob = clear_buf(o.p, 64), ib = clear_buf(i.p, 16);
            if (r.coin())
                ob.buffer_type = (sa_buffer_type) r.pick({2, 77});
            else
                ib.buffer_type = (sa_buffer_type) r.pick({2, 77});
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:svp-handle", n).c_str(), [L](World& w, Rng& r) { GBuf o(64), i(16); sa_buffer ob = clear_buf(o.p, 64), ib = clear_buf(i.p, 16);
            sa_svp_buffer bad = r.pick({(sa_svp_buffer) 0, (sa_svp_buffer) 255, (sa_svp_buffer) 256, INVALID_HANDLE, (sa_svp_buffer) 1 << 33});
            ob = svp_buf(bad);
            if (r.coin())
                ib = svp_buf(bad);
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:svp-range", n).c_str(), [L](World& w, Rng& r) { GBuf i(16); sa_buffer ob = svp_buf(w.svp->h, r.pick({(size_t) 190, (size_t) 500, SIZE_MAX,
                SIZE_MAX - 15})), ib = clear_buf(i.p, 16);
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:svp-in-range", n).c_str(), [L](World& w, Rng& r) { sa_buffer ob = svp_buf(w.svp->h, 0), ib = svp_buf(w.svp2->h, r.pick({(size_t) 190,
                (size_t) 500, SIZE_MAX, SIZE_MAX - 15}));
            return process(w, r, &ob, &ib, 16, L); });
        F(strf("%s:svp-to-clear", n).c_str(), [L](World& w, Rng& r) { GBuf o(64); sa_buffer ob = clear_buf(o.p, 64), ib = svp_buf(w.svp->h, 0);
            return process(w, r, &ob, &ib, 16, L); });
    }
    F("process:huge-length", [](World& w, Rng& r) { GBuf o(64), i(64); sa_buffer ob = clear_buf(o.p, 64), ib = clear_buf(i.p, 64);
        return process(w, r, &ob, &ib, r.pick({SIZE_MAX, SIZE_MAX - 15, (size_t) 1 << 63}) & ~(size_t) 15, false); });
    F("update_iv:length", [](World& w, Rng& r) { return SA(w.s, crypto_cipher_update_iv, w.cipher->h, junk, r.pick({0, 1, 15, 17, 12})); });
    F("update_iv:none", [](World& w, Rng& r) { return SA(w.s, crypto_cipher_update_iv, w.cipher->h, nullptr, 16); });
    F("cenc:algorithm", [](World& w, Rng& r) {
        sa_crypto_cipher_context c = INVALID_HANDLE;
        CParams p;
        cparams_rand(p, r, SA_CIPHER_ALGORITHM_AES_ECB);
        if (cinit(w.s, &c, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_DECRYPT, w.h(K_SYM16), p) != SA_STATUS_OK)
            viol("use-refused:init", "refused");
        sa_subsample_length sl = {0, 16};
        GBuf i(16), o(16);
        sa_buffer ib = clear_buf(i.p, 16), ob = clear_buf(o.p, 16);
        sa_sample sm = {junk, 16, 0, 0, 1, &sl, c, &ob, &ib};
        sa_status st = SA(w.s, process_common_encryption, 1, &sm);
        SA(w.s, crypto_cipher_release, c);
        return st; });
    F("cenc:malformed", [](World& w, Rng& r) {
        sa_crypto_cipher_context c = INVALID_HANDLE;
        CParams p;
        sa_cipher_algorithm a = r.coin() ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC;
        cparams_rand(p, r, a);
        if (cinit(w.s, &c, a, SA_CIPHER_MODE_DECRYPT, w.h(K_SYM16), p) != SA_STATUS_OK)
            viol("use-refused:init", "refused");
        sa_subsample_length sl[2] = {{4, 16}, {2, 32}};
        GBuf i(54), o(54);
        sa_buffer ib = clear_buf(i.p, 54), ob = clear_buf(o.p, 54);
        sa_sample sm = {junk, 16, 0, 0, 2, sl, c, &ob, &ib};
        switch (r.below(11)) {
            case 0: sm.iv = nullptr; break;
            case 1: sm.iv_length = r.pick({0, 8, 15, 17}); break;
            case 2: sm.subsample_lengths = nullptr; break;
            case 3: sm.out = nullptr; break;
            case 4: sm.in = nullptr; break;
            case 5: sl[1].bytes_of_protected_data = 33; break;
            case 6: sl[0].bytes_of_clear_data = SIZE_MAX; break;
            case 7: ib.context.clear.offset = 1; break;
            case 8: ob.context.clear.offset = r.pick({(size_t) 1, SIZE_MAX}); break;
            case 9: ib.buffer_type = (sa_buffer_type) 3; break;
            default: sm.context = 250; break;
        }
        sa_status st = SA(w.s, process_common_encryption, 1, &sm);
        SA(w.s, crypto_cipher_release, c);
        return st; });
    F("cenc:none", [](World& w, Rng& r) { return SA(w.s, process_common_encryption, 1, nullptr); });
    // ---- MAC
    F("mac-init:key-type", [](World& w, Rng& r) { sa_crypto_mac_context c = INVALID_HANDLE;
        sa_mac_parameters_hmac p = {DIGESTS[r.below(4)]};
        bool hm = r.coin();
        sa_status st = SA(w.s, crypto_mac_init, &c, hm ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, w.h(rnot(r, {K_SYM16, K_SYM32})), hm ? &p : nullptr);
        if (st == SA_STATUS_OK)
            SA(w.s, crypto_mac_release, c);
        return st; });
    F("mac-init:arguments", [](World& w, Rng& r) { sa_crypto_mac_context c = INVALID_HANDLE;
        sa_mac_parameters_hmac p = {DIGESTS[r.below(4)]};
        sa_status st;
        switch (r.below(4)) {
            case 0: st = SA(w.s, crypto_mac_init, &c, (sa_mac_algorithm) 2, w.h(K_SYM16), &p); break;
            case 1: st = SA(w.s, crypto_mac_init, nullptr, SA_MAC_ALGORITHM_HMAC, w.h(K_SYM16), &p); break;
            case 2: st = SA(w.s, crypto_mac_init, &c, SA_MAC_ALGORITHM_HMAC, w.h(K_SYM16), nullptr); break;
            default: p.digest_algorithm = (sa_digest_algorithm) r.pick({4, 88}); st = SA(w.s, crypto_mac_init, &c, SA_MAC_ALGORITHM_HMAC, w.h(K_SYM16), &p); break;
        }
        if (st == SA_STATUS_OK)
            SA(w.s, crypto_mac_release, c);
        return st; });
    F("mac-process:no-input", [](World& w, Rng& r) { return SA(w.s, crypto_mac_process, w.mac->h, nullptr, 5); });
    F("mac-process-key:type", [](World& w, Rng& r) { return SA(w.s, crypto_mac_process_key, w.mac->h, w.h(rnot(r, {K_SYM16, K_SYM32}))); });
    F("mac-process-key:handle", [](World& w, Rng& r) { return SA(w.s, crypto_mac_process_key, w.mac->h, r.pick({(sa_key) 222, INVALID_HANDLE})); });
    F("mac-compute:short", [](World& w, Rng& r) { size_t n = r.below(16); GBuf o(n); return SA(w.s, crypto_mac_compute, o.p, &n, w.mac->h); });
    F("mac-compute:no-length", [](World& w, Rng& r) { return SA(w.s, crypto_mac_compute, junk, nullptr, w.mac->h); });
    // ---- sign
    F("sign:key-type", [](World& w, Rng& r) {
        uint8_t o[600];
        size_t n = sizeof o;
        sa_sign_parameters_rsa_pss p = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, false, 20};
        sa_sign_parameters_rsa_pkcs1v15 q = {SA_DIGEST_ALGORITHM_SHA256, false};
        sa_signature_algorithm a = (sa_signature_algorithm) r.below(4);
        KK k = a == SA_SIGNATURE_ALGORITHM_ECDSA ? rnot(r, {K_EC256}) : a == SA_SIGNATURE_ALGORITHM_EDDSA ? rnot(r, {K_ED25519}) : rnot(r, {K_RSA});
        return SA(w.s, crypto_sign, o, &n, a, w.h(k), junk, 20, a == SA_SIGNATURE_ALGORITHM_RSA_PSS ? (void*) &p :
                a == SA_SIGNATURE_ALGORITHM_EDDSA ? nullptr : (void*) &q); });
    F("sign:arguments", [](World& w, Rng& r) {
        uint8_t o[600];
        size_t n = sizeof o;
        sa_sign_parameters_rsa_pss p = {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256, false, 20};
        sa_sign_parameters_rsa_pkcs1v15 q = {SA_DIGEST_ALGORITHM_SHA256, true};
        switch (r.below(8)) {
            case 0: return SA(w.s, crypto_sign, o, &n, (sa_signature_algorithm) 4, w.h(K_RSA), junk, 20, &p);
            case 1: p.salt_length = r.pick({95, 1000}); return SA(w.s, crypto_sign, o, &n, SA_SIGNATURE_ALGORITHM_RSA_PSS, w.h(K_RSA), junk, 20, &p);
            case 2: n = r.below(128); return SA(w.s, crypto_sign, o, &n, SA_SIGNATURE_ALGORITHM_RSA_PSS, w.h(K_RSA), junk, 20, &p);
            case 3: n = r.below(64); return SA(w.s, crypto_sign, o, &n, SA_SIGNATURE_ALGORITHM_EDDSA, w.h(K_ED25519), junk, 20, nullptr);
            case 4: return SA(w.s, crypto_sign, o, &n, SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15, w.h(K_RSA), junk, r.pick({0, 31, 33}), &q);
            case 5: return SA(w.s, crypto_sign, o, &n, SA_SIGNATURE_ALGORITHM_ECDSA, w.h(K_EC256), junk, r.pick({0, 31, 33}), &q);
            case 6: return SA(w.s, crypto_sign, o, nullptr, SA_SIGNATURE_ALGORITHM_ECDSA, w.h(K_EC256), junk, 32, &q);
            default: return SA(w.s, crypto_sign, o, &n, SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15, w.h(K_RSA), junk, 32, nullptr);
        } });
    // ---- SVP
    F("svp-write:range", [](World& w, Rng& r) {
        sa_svp_offset of[3] = {{0, 0, 8}, {0, 0, 8}, {0, 0, 8}};
        switch (r.below(5)) {
            case 0: of[2].out_offset = r.pick({(size_t) 200, SIZE_MAX, SIZE_MAX - 7}); break;
            case 1: of[2].in_offset = r.pick({(size_t) 57, SIZE_MAX, SIZE_MAX - 7}); break;
            case 2: of[1].length = r.pick({(size_t) 65, SIZE_MAX}); break;
            case 3: of[0].in_offset = 64; break;
            default: of[0].out_offset = 1000; break;
        }
        return SA(w.s, svp_buffer_write, w.svp->h, junk, 64, of, 3); });
    F("svp-write:none", [](World& w, Rng& r) { sa_svp_offset of = {0, 0, 8};
        return r.coin() ? SA(w.s, svp_buffer_write, w.svp->h, nullptr, 64, &of, 1) : SA(w.s, svp_buffer_write, w.svp->h, junk, 64, nullptr, 1); });
    F("svp-copy:range", [](World& w, Rng& r) {
        sa_svp_offset of[2] = {{0, 0, 8}, {0, 0, 8}};
        switch (r.below(3)) {
            case 0: of[1].out_offset = r.pick({(size_t) 200, SIZE_MAX, SIZE_MAX - 7}); break;
            case 1: of[1].in_offset = r.pick({(size_t) 200, SIZE_MAX, SIZE_MAX - 7}); break;
            default: of[1].length = r.pick({(size_t) 201, SIZE_MAX}); break;
        }
        return SA(w.s, svp_buffer_copy, w.svp->h, w.svp2->h, of, 2); });
    F("svp-copy:handle", [](World& w, Rng& r) { sa_svp_offset of = {0, 0, 8};
        return r.coin() ? SA(w.s, svp_buffer_copy, w.svp->h, 240, &of, 1) : SA(w.s, svp_buffer_copy, 240, w.svp2->h, &of, 1); });
    F("svp-create:none", [](World& w, Rng& r) { sa_svp_buffer b = INVALID_HANDLE;
        return r.coin() ? SA(w.s, svp_buffer_create, &b, nullptr, 16) : SA(w.s, svp_buffer_create, nullptr, junk, 16); });
    F("svp-check:wrong", [](World& w, Rng& r) { return SA(w.s, svp_buffer_check, w.svp->h, r.pick({(size_t) 0, (size_t) 190, SIZE_MAX}), 16, SA_DIGEST_ALGORITHM_SHA256, junk,
            r.pick({32, 31, 0})); });
    F("key-check:wrong", [](World& w, Rng& r) { GBuf i(16); sa_buffer ib = clear_buf(i.p, 16);
        return SA(w.s, svp_key_check, w.h(r.coin() ? rsym(r) : rany(r)), &ib, r.pick({16, 16, 15, 32}), junk, r.pick({16, 15, 0})); });
}
}   // namespace
const std::vector<FailCall>& fail_calls() {
    static std::once_flag once;
    std::call_once(once, build);
    return v;
}
