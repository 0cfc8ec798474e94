#include "objs.hpp"
const char* ot_name(OT t) {
    static const char* n[] = {"key", "cipher", "mac", "svp"};
    return n[t];
}
namespace {
struct As {
    explicit As(const sa_uuid* u) { g_as = u; }
    ~As() { g_as = nullptr; }
};
void refused(sa_status st, const char* why, const char* fn, const Obj& o) {
    trace("  (%s) %s on %s %lu -> %s", why, fn, ot_name(o.type), o.h, status_name(st));
    if (st == SA_STATUS_OK)
        viol(strf("%s-accepted:%s", why, fn), "%s on %s handle %lu was accepted (%s)", fn, o.what.c_str(), o.h, why);
    cov(strf("%s:%s", why, fn));
}
struct KeyObj : Obj {
    KInfo k;
    KeyObj() : Obj(O_KEY) {}
    ~KeyObj() override {
        if (k.ek.pkey && k.kind != K_RSA)
            EVP_PKEY_free(k.ek.pkey);
    }
    void use(Sess& s, Rng& r) override {
        auto v = ops_for(k.kind);
        const Op& o = *r.pick(v);
        OpEnv e{s, r, k, h};
        sa_status st = run_op(o, e);
        if (st != SA_STATUS_OK)
            viol(strf("use-refused:%s", o.name.c_str()), "%s by the owner of a live %s key gave %s", o.name.c_str(), kk_name(k.kind),
                    status_name(st));
        cov(strf("use:%s", o.name.c_str()));
    }
    void verify(Sess& s, Rng&) override {
        sa_header hd;
        sa_status st = SA(s, key_header, &hd, h);
        if (st != SA_STATUS_OK || !rights_equal(hd.rights, k.rights))
            viol("key-changed", "the header of a live %s key gave %s or other rights", kk_name(k.kind), status_name(st));
    }
    void attack(Sess& v, Rng& r, const sa_uuid* as, const char* why) override {
        if (r.chance(8)) {
            As g(as);
            refused(SA(v, key_release, h), why, "key_release", *this);
            return;
        }
        auto ov = ops_for(k.kind);
        const Op& o = *r.pick(ov);
        OpEnv e{v, r, k, h};
        e.as = as;
        e.avoid = true;
        refused(run_op(o, e), why, o.name.c_str(), *this);
    }
    sa_status release(Sess& s) override { return SA(s, key_release, h); }
};
struct CipherObj : Obj {
    sa_cipher_algorithm alg;
    bool enc;
    Bytes key, iv, stream;   // CTR, chacha: key stream; iv: chaining value
    size_t pos = 0;
    CipherObj() : Obj(O_CIPHER) {}
    bool keystream() const { return alg == SA_CIPHER_ALGORITHM_AES_CTR || alg == SA_CIPHER_ALGORITHM_CHACHA20; }
    Bytes expect(const Bytes& in) {
        Bytes o;
        if (keystream()) {
            o = in;
            for (size_t i = 0; i < in.size(); i++)
                o[i] ^= stream[pos + i];
            pos += in.size();
        } else if (alg == SA_CIPHER_ALGORITHM_AES_ECB)
            o = ref_ecb(key, in, enc);
        else {
            o = ref_cbc(key, iv, in, enc);
            const Bytes& c = enc ? o : in;
            if (!c.empty())
                iv.assign(c.end() - 16, c.end());
        }
        return o;
    }
    void use(Sess& s, Rng& r) override {
        size_t n = keystream() ? r.below(50) : 16 * r.below(4);
        if (keystream() && pos + n > stream.size())
            n = 0;
        if (alg == SA_CIPHER_ALGORITHM_AES_CBC && r.chance(15)) {
            Bytes iv2 = r.bytes(16);
            sa_status st = SA(s, crypto_cipher_update_iv, h, iv2.data(), 16);
            if (st != SA_STATUS_OK)
                viol("use-refused:update_iv", "update_iv on a live context gave %s", status_name(st));
            iv = iv2;
            cov("use:update_iv");
        }
        Bytes in = r.bytes(n);
        if (r.chance(20)) {   // a size query changes nothing
            GBuf i(in);
            sa_buffer ib = clear_buf(i.p, i.n);
            size_t len = n;
            sa_status st = SA(s, crypto_cipher_process, nullptr, h, &ib, &len);
            if (st != SA_STATUS_OK)
                viol("use-refused:query", "a size query on a live context gave %s", status_name(st));
        }
        GBuf i(in), o(n);
        sa_buffer ib = clear_buf(i.p, i.n), ob = clear_buf(o.p, o.n);
        size_t len = n;
        sa_status st = SA(s, crypto_cipher_process, &ob, h, &ib, &len);
        if (st != SA_STATUS_OK)
            viol(strf("use-refused:process:%s", alg_name(alg)), "process of %zu bytes on a live %s context gave %s", n, alg_name(alg),
                    status_name(st));
        Bytes want = expect(in);
        if (len != n || o.get() != want)
            viol(strf("use-wrong:process:%s", alg_name(alg)), "the %s context returned other data than its stream defines at byte %zu: %s, "
                    "expected %s", alg_name(alg), pos, hex(o.get()).c_str(), hex(want).c_str());
        cov(strf("use:process:%s", alg_name(alg)));
    }
    void attack(Sess& v, Rng& r, const sa_uuid* as, const char* why) override {
        As g(as);
        GBuf i(r.bytes(32)), o(64);
        sa_buffer ib = clear_buf(i.p, i.n), ob = clear_buf(o.p, o.n);
        size_t len = 16;
        sa_status st;
        const char* fn;
        switch (r.below(6)) {
            case 0: fn = "cipher_release"; st = SA(v, crypto_cipher_release, h); break;
            case 1: fn = "cipher_update_iv"; st = SA(v, crypto_cipher_update_iv, h, i.p, 16); break;
            case 2: fn = "cipher_process_last"; st = SA(v, crypto_cipher_process_last, &ob, h, &ib, &len, nullptr); break;
            case 3: fn = "cipher_query"; st = SA(v, crypto_cipher_process, nullptr, h, &ib, &len); break;
            case 4: {
                fn = "common_encryption";
                sa_subsample_length sl = {0, 16};
                Bytes iv2 = r.bytes(16);
                sa_sample sm = {iv2.data(), 16, 0, 0, 1, &sl, h, &ob, &ib};
                st = SA(v, process_common_encryption, 1, &sm);
                break;
            }
            default: fn = "cipher_process"; st = SA(v, crypto_cipher_process, &ob, h, &ib, &len); break;
        }
        g_as = nullptr;
        for (size_t x = 0; x < o.n; x++)
            if (o.p[x] != 0xA5)
                viol(strf("%s-output:%s", why, fn), "%s on %s wrote output (%s, %s)", fn, what.c_str(), why, status_name(st));
        refused(st, why, fn, *this);
    }
    sa_status release(Sess& s) override { return SA(s, crypto_cipher_release, h); }
};
struct MacObj : Obj {
    bool cmac = false, dead = false;
    sa_digest_algorithm d = SA_DIGEST_ALGORITHM_SHA1;
    Bytes key, fed;
    MacObj() : Obj(O_MAC) {}
    Bytes value() const { return cmac ? ref_cmac(key, fed) : ref_hmac(d, key, fed); }
    void use(Sess& s, Rng& r) override {
        if (dead) {
            uint8_t b[8] = {0};
            if (SA(s, crypto_mac_process, h, b, 8) == SA_STATUS_OK)
                viol("mac-after-compute", "a computed MAC context accepted more data");
            return;
        }
        if (r.chance(25)) {
            Bytes km = r.bytes(16);
            sa_key k = must_sym(s, km);
            sa_status st = SA(s, crypto_mac_process_key, h, k);
            if (st != SA_STATUS_OK)
                viol("use-refused:mac_process_key", "gave %s", status_name(st));
            SA(s, key_release, k);
            app(fed, km);
            cov("use:mac_process_key");
            return;
        }
        Bytes in = r.bytes(r.below(60));
        uint8_t z = 0;
        sa_status st = SA(s, crypto_mac_process, h, in.empty() ? &z : in.data(), in.size());
        if (st != SA_STATUS_OK)
            viol("use-refused:mac_process", "gave %s", status_name(st));
        app(fed, in);
        cov("use:mac_process");
    }
    void finish(Sess& s, Rng&) override {
        if (dead)
            return;
        Bytes want = value();
        GBuf o(want.size());
        size_t n = o.n;
        sa_status st = SA(s, crypto_mac_compute, o.p, &n, h);
        if (st != SA_STATUS_OK || n != want.size() || o.get() != want)
            viol("use-wrong:mac_compute", "compute gave %s or not the MAC of the %zu bytes fed", status_name(st), fed.size());
        dead = true;
        cov("use:mac_compute");
    }
    void attack(Sess& v, Rng& r, const sa_uuid* as, const char* why) override {
        uint8_t b[64];
        memset(b, 0xA5, sizeof b);
        size_t n = sizeof b;
        sa_status st;
        const char* fn;
        int w = (int) r.below(5);
        sa_key k = INVALID_HANDLE;
        if (w == 3)
            k = must_sym(v, r.bytes(16));
        {
            As g(as);
            switch (w) {
                case 0: fn = "mac_release"; st = SA(v, crypto_mac_release, h); break;
                case 1: fn = "mac_compute"; st = SA(v, crypto_mac_compute, b, &n, h); break;
                case 2: fn = "mac_query"; st = SA(v, crypto_mac_compute, nullptr, &n, h); break;
                case 3: fn = "mac_process_key_into"; st = SA(v, crypto_mac_process_key, h, k); break;
                default: fn = "mac_process"; st = SA(v, crypto_mac_process, h, b, 8); break;
            }
        }
        if (k != INVALID_HANDLE)
            SA(v, key_release, k);
        for (size_t x = 0; x < sizeof b; x++)
            if (b[x] != 0xA5)
                viol(strf("%s-output:%s", why, fn), "%s on %s wrote output (%s)", fn, what.c_str(), why);
        refused(st, why, fn, *this);
    }
    sa_status release(Sess& s) override { return SA(s, crypto_mac_release, h); }
};
struct SvpObj : Obj {
    std::unique_ptr<GBuf> mem;
    Bytes model;
    SvpObj() : Obj(O_SVP) {}
    void check_mem(const char* when) {
        if (mem->get() != model)
            viol("svp-content", "the SVP memory differs from the model %s", when);
        if (!mem->guards_ok())
            viol("svp-overrun", "memory next to the SVP buffer was written %s", when);
    }
    void use(Sess& s, Rng& r) override {
        if (r.chance(60) || s.uuid == UUID_REE || !s.direct) {
            Bytes in = r.bytes(r.range(1, 40));
            size_t n = r.range(1, in.size()), io = r.below(in.size() - n + 1), oo = r.below(mem->n - n + 1);
            sa_svp_offset of = {oo, io, n};
            sa_status st = SA(s, svp_buffer_write, h, in.data(), in.size(), &of, 1);
            if (st != SA_STATUS_OK)
                viol("use-refused:svp_write", "gave %s", status_name(st));
            std::copy(in.begin() + (long) io, in.begin() + (long) (io + n), model.begin() + (long) oo);
            cov("use:svp_write");
        } else {
            size_t n = r.range(1, mem->n), o = r.below(mem->n - n + 1);
            Bytes d = ref_digest(SA_DIGEST_ALGORITHM_SHA256, Bytes(model.begin() + (long) o, model.begin() + (long) (o + n)));
            sa_status st = SA(s, svp_buffer_check, h, o, n, SA_DIGEST_ALGORITHM_SHA256, d.data(), d.size());
            if (st != SA_STATUS_OK)
                viol("use-refused:svp_check", "gave %s", status_name(st));
            cov("use:svp_check");
        }
        check_mem("after a use");
    }
    void verify(Sess&, Rng&) override { check_mem("between uses"); }
    void attack(Sess& v, Rng& r, const sa_uuid* as, const char* why) override {
        uint8_t in[32];
        r.fill(in, sizeof in);
        sa_svp_offset of = {0, 0, 8};
        sa_status st;
        const char* fn;
        int w = (int) r.below(7);
        std::vector<sa_svp_buffer> hb;
        GBuf hm(64), out(64), src(r.bytes(64));
        sa_svp_buffer partner = INVALID_HANDLE;
        if (w == 2 || w == 3) {
            HCHECK(SA(v, svp_buffer_create, &partner, hm.p, hm.n) == SA_STATUS_OK);
            if (partner == h) {   // the handle under attack must stay unused in v
                void* m;
                size_t sz;
                HCHECK(SA(v, svp_buffer_create, &partner, hm.p, hm.n) == SA_STATUS_OK);
                HCHECK(SA(v, svp_buffer_release, &m, &sz, h) == SA_STATUS_OK);
            }
            hb.push_back(partner);
        }
        sa_crypto_cipher_context cc = INVALID_HANDLE;
        if (w >= 5) {
            sa_key k = must_sym(v, r.bytes(16));
            CParams p;
            cparams_rand(p, r, SA_CIPHER_ALGORITHM_AES_CTR);
            HCHECK(cinit(v, &cc, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, k, p) == SA_STATUS_OK);
            SA(v, key_release, k);
        }
        {
            As g(as);
            switch (w) {
                case 0: fn = "svp_write"; st = SA(v, svp_buffer_write, h, in, sizeof in, &of, 1); break;
                case 1: {
                    fn = "svp_check";
                    Bytes d = ref_digest(SA_DIGEST_ALGORITHM_SHA256, Bytes(model.begin(), model.begin() + 8));
                    st = SA(v, svp_buffer_check, h, 0, 8, SA_DIGEST_ALGORITHM_SHA256, d.data(), d.size());
                    break;
                }
                case 2: fn = "svp_copy_to"; st = SA(v, svp_buffer_copy, h, partner, &of, 1); break;
                case 3: fn = "svp_copy_from"; st = SA(v, svp_buffer_copy, partner, h, &of, 1); break;
                case 4: {
                    fn = "svp_release";
                    void* m = nullptr;
                    size_t sz = 0;
                    st = SA(v, svp_buffer_release, &m, &sz, h);
                    break;
                }
                default: {
                    size_t len = 16;
                    fn = w == 5 ? "cipher_into_svp" : "svp_into_svp";
                    sa_buffer ob = svp_buf(h), ib = w == 5 ? clear_buf(src.p, src.n) : svp_buf(h);
                    st = SA(v, crypto_cipher_process, &ob, cc, &ib, &len);
                    break;
                }
            }
        }
        if (cc != INVALID_HANDLE)
            SA(v, crypto_cipher_release, cc);
        for (auto b : hb) {
            void* m;
            size_t sz;
            SA(v, svp_buffer_release, &m, &sz, b);
        }
        if (hm.get() != Bytes(64, 0xA5))
            viol(strf("%s-output:%s", why, fn), "%s copied data out of %s (%s)", fn, what.c_str(), why);
        check_mem(strf("by %s (%s)", fn, why).c_str());
        refused(st, why, fn, *this);
    }
    sa_status release(Sess& s) override {
        void* m = nullptr;
        size_t sz = 0;
        sa_status st = SA(s, svp_buffer_release, &m, &sz, h);
        if (st == SA_STATUS_OK && (m != mem->p || sz != mem->n))
            viol("svp-release-address", "release returned another address or size than the buffer was created with");
        if (st == SA_STATUS_OK)
            check_mem("after release");
        return st;
    }
};
}   // namespace
const KInfo* obj_key_info(const Obj& o) { return o.type == O_KEY ? &static_cast<const KeyObj&>(o).k : nullptr; }
static bool made(sa_status st, sa_status* out, const char* what) {
    if (out)
        *out = st;
    else if (st != SA_STATUS_OK)
        viol(strf("create-refused:%s", what), "creating a %s gave %s", what, status_name(st));
    return st == SA_STATUS_OK;
}
std::unique_ptr<Obj> obj_key(Sess& s, Rng& r, KK kind, sa_status* st) {
    auto o = std::make_unique<KeyObj>();
    sa_status x;
    o->k = make_key(s, r, kind, rights_all(), &x);
    o->h = o->k.h;
    o->what = strf("a %s key", kk_name(kind));
    if (!made(x, st, "key"))
        return nullptr;
    if (kind == K_DH && key_pub(s, o->h, &o->k.dh_pub) != SA_STATUS_OK)
        viol("use-refused:get_public", "public key of a new DH key refused");
    return o;
}
std::unique_ptr<Obj> obj_cipher(Sess& s, Rng& r, const KInfo& k, sa_status* st) {
    auto o = std::make_unique<CipherObj>();
    std::vector<sa_cipher_algorithm> as = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CTR};
    if (k.kind == K_SYM32)
        as.push_back(SA_CIPHER_ALGORITHM_CHACHA20);
    o->alg = r.pick(as);
    o->enc = r.coin();
    o->key = k.mat;
    CParams p;
    cparams_rand(p, r, o->alg);
    sa_status x = cinit(s, &o->h, o->alg, o->enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k.h, p);
    o->what = strf("a %s context", alg_name(o->alg));
    if (!made(x, st, "cipher"))
        return nullptr;
    o->iv = p.iv;
    if (o->alg == SA_CIPHER_ALGORITHM_AES_CTR)
        o->stream = ref_ctr(k.mat, p.ctr, Bytes(2000, 0));
    if (o->alg == SA_CIPHER_ALGORITHM_CHACHA20)
        o->stream = ref_chacha(k.mat, p.ctr, p.nonce, Bytes(2000, 0));
    return o;
}
std::unique_ptr<Obj> obj_mac(Sess& s, Rng& r, const KInfo& k, sa_status* st) {
    auto o = std::make_unique<MacObj>();
    o->cmac = r.coin();
    o->d = DIGESTS[r.below(4)];
    o->key = k.mat;
    sa_mac_parameters_hmac hp = {o->d};
    sa_status x = SA(s, crypto_mac_init, &o->h, o->cmac ? SA_MAC_ALGORITHM_CMAC : SA_MAC_ALGORITHM_HMAC, k.h, o->cmac ? nullptr : &hp);
    o->what = o->cmac ? "a CMAC context" : "an HMAC context";
    if (!made(x, st, "mac"))
        return nullptr;
    return o;
}
std::unique_ptr<Obj> obj_create(Sess& s, Rng& r, OT t, sa_status* st) {
    switch (t) {
        case O_KEY: return obj_key(s, r, (KK) r.below(K_COUNT), st);
        case O_CIPHER:
        case O_MAC: {   // the context's key is released at once
            KInfo k = make_key(s, r, r.coin() ? K_SYM16 : K_SYM32, rights_all(), st);
            if (st && *st != SA_STATUS_OK)
                return nullptr;
            auto o = t == O_CIPHER ? obj_cipher(s, r, k, st) : obj_mac(s, r, k, st);
            SA(s, key_release, k.h);
            return o;
        }
        default: {
            auto o = std::make_unique<SvpObj>();
            o->mem.reset(new GBuf(r.bytes(r.range(40, 200))));
            o->model = o->mem->get();
            o->what = "an SVP buffer";
            sa_status x = SA(s, svp_buffer_create, &o->h, o->mem->p, o->mem->n);
            if (!made(x, st, "svp"))
                return nullptr;
            return o;
        }
    }
}
