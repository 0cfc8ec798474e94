// Activities: single operations, object and session life cycles, imports, invalid calls, to be run again and again (c26, c23)
#pragma once
#include "containers.hpp"
#include "fails.hpp"
extern "C" {
sa_status ta_open_session_handler(void** session_context);
void ta_close_session_handler(void* session_context);
sa_status __real_ta_invoke_command_handler(void*, SA_COMMAND_ID, const uint32_t*, ta_param*);
}
namespace {
void* g_ctx;
uint64_t live_blocks() { return ta_live_blocks() + client_live_blocks(); }
bool g_unreleased;   // a provisioned key is left since its release ran out of memory
sa_status intercept(void*, SA_COMMAND_ID id, const uint32_t* t, ta_param* p) {
    sa_status st = __real_ta_invoke_command_handler(g_ctx, id, t, p);
    if (id == SA_KEY_PROVISION_TA && st == SA_STATUS_OK)
        g_unreleased = true;
    if (id == SA_KEY_RELEASE && st == SA_STATUS_OK)
        g_unreleased = false;
    return st;
}
// An activity can be run again and again from the same random numbers; its calls made in a FaultScope may be made to fail.
struct Act {
    std::string name;
    bool must_fail = false;
    std::function<sa_status(Rng&)> run;
};
struct Case {
    Sess& s;
    World& w;
    Rng& r;
};
template <class F> auto scoped(F f) {
    FaultScope sc;
    return f();
}
Act act_op(Case& c) {
    KK kk = (KK) c.r.below(K_COUNT);
    const Op* o = c.r.pick(ops_for(kk));
    bool svp = o->svp_able && c.r.chance(30);
    return {o->name, false, [&c, kk, o, svp](Rng& q) {
        OpEnv e{c.s, q, c.w.k(kk), c.w.h(kk)};
        e.svp_out = svp;
        return run_op(*o, e);
    }};
}
Act act_fail(Case& c) {
    const FailCall* f = &c.r.pick(fail_calls());
    return {f->name, true, [&c, f](Rng& q) { return scoped([&] { return f->run(c.w, q); }); }};
}
// create, one use, release
Act act_object(Case& c) {
    OT t = (OT) c.r.below(4);
    bool in_use = c.r.coin();
    return {strf("%s:%s", ot_name(t), in_use ? "use" : "create"), false, [&c, t, in_use](Rng& q) {
        sa_status st = SA_STATUS_OK;
        std::unique_ptr<Obj> o;
        if (in_use)
            o = obj_create(c.s, q, t);
        else
            o = scoped([&] { return obj_create(c.s, q, t, &st); });
        if (!o || st != SA_STATUS_OK)
            return st;
        Finally f{[&] {
            sa_status rs = scoped([&] { return o->release(c.s); });
            if (rs != SA_STATUS_OK && g_fp && g_fp->refused)
                rs = o->release(c.s);   // refused for want of memory: it is still there
            if (rs != SA_STATUS_OK)
                viol_async(strf("release-refused:%s", ot_name(t)), "releasing a %s gave %s", ot_name(t), status_name(rs));
        }};
        if (in_use)
            scoped([&] { o->use(c.s, q); });
        else
            o->use(c.s, q);
        return st;
    }};
}
Act act_generate(Case& c) {
    int kind = (int) c.r.below(3);
    sa_elliptic_curve cv = c.r.pick(curves_all());
    size_t n = c.r.range(16, 64);
    const char* nm[] = {"symmetric", "EC", "DH"};
    return {strf("generate:%s", nm[kind]), false, [&c, kind, cv, n](Rng&) {
        sa_rights ra = rights_all();
        sa_generate_parameters_symmetric ps = {n};
        sa_generate_parameters_ec pe = {cv};
        const DhGroup& g = dh_group();
        sa_generate_parameters_dh pd = {g.p.data(), g.p.size(), g.g.data(), g.g.size()};
        sa_key k = INVALID_HANDLE;
        sa_key_type ty = kind == 0 ? SA_KEY_TYPE_SYMMETRIC : kind == 1 ? SA_KEY_TYPE_EC : SA_KEY_TYPE_DH;
        sa_status st = scoped([&] { return SA(c.s, key_generate, &k, &ra, ty, kind == 0 ? (void*) &ps : kind == 1 ? (void*) &pe : (void*) &pd); });
        if (st != SA_STATUS_OK)
            return st;
        sa_header h;
        if (SA(c.s, key_header, &h, k) != SA_STATUS_OK || h.type != ty || h.size != (kind == 0 ? n : kind == 1 ? curve_size(cv) : g.p.size()))
            viol("wrong-result:generate", "the generated key has another size or type");
        Bytes d;
        if ((kind == 0 ? key_digest(c.s, k, SA_DIGEST_ALGORITHM_SHA256, &d) : key_pub(c.s, k, &d)) != SA_STATUS_OK)
            viol("wrong-result:generate", "the generated key cannot be used");
        SA(c.s, key_release, k);
        return st;
    }};
}
void expect_key(Case& c, Rng& q, sa_key k, const KInfo& ki, const char* how) {
    std::string why;
    bool ok = true;
    if (ki.kind <= K_SYM32)
        ok = sym_matches(c.s, k, ki.mat, &why);
    else if (ki.kind != K_DH)
        ok = asym_matches(c.s, q, k, ki.kind == K_RSA, ki.ek, &why);
    else {
        Bytes pub;
        if (key_pub(c.s, k, &pub) != SA_STATUS_OK || pub != ki.dh_pub)
            ok = false, why = "another public key";
    }
    if (!ok)
        viol(strf("wrong-result:%s", how), "%s reported success but %s", how, why.c_str());
}
Act act_export_import(Case& c) {
    KK kk = (KK) c.r.below(K_COUNT);
    bool ex = c.r.coin();
    return {strf("%s:%s", ex ? "export" : "import-exported", kk_name(kk)), false, [&c, kk, ex](Rng& q) {
        Bytes mix = q.bytes(16), cont;
        sa_status st;
        GBuf o(4000);
        size_t n = o.n;
        auto f = [&] { return SA(c.s, key_export, o.p, &n, mix.data(), 16, c.w.h(kk)); };
        st = ex ? scoped(f) : f();
        if (st != SA_STATUS_OK)
            return st;
        cont = o.get(0, n);
        sa_key k = INVALID_HANDLE;
        auto g = [&] { return SA(c.s, key_import, &k, SA_KEY_FORMAT_EXPORTED, cont.data(), cont.size(), nullptr); };
        st = ex ? g() : scoped(g);
        if (st != SA_STATUS_OK) {
            if (ex)
                viol("wrong-result:export", "an exported container was refused with %s", status_name(st));
            return st;
        }
        expect_key(c, q, k, c.w.k(kk), ex ? "export" : "import-exported");
        SA(c.s, key_release, k);
        return st;
    }};
}
Act act_container(Case& c) {
    bool tj = c.r.coin();
    int cut = (int) c.r.below(4);   // also damaged containers, which stay refused
    return {strf("import:%s%s", tj ? "TypeJ" : "SoC", cut ? "" : ":damaged"), cut == 0, [&c, tj, cut](Rng& q) {
        sa_key k = INVALID_HANDLE, kc = INVALID_HANDLE, km = INVALID_HANDLE;
        sa_status st;
        sa_rights want;
        Bytes in;
        TypeJ t;
        Soc so;
        if (tj) {
            t = typej_rand(q);
            t.tas = -1;
            t.ta.clear();
            sa_rights all = rights_all();
            kc = must_sym(c.s, t.kcipher, &all);
            km = must_sym(c.s, t.khmac, &all);
            in = typej_pack(jtext(typej_fields(t, &q), &q), t.khmac);
            want = typej_rights(t, rights_all());
        } else {
            so = soc_rand(q, true);
            so.ta.clear();
            Bytes tag, sealed = soc_seal(so, &tag);
            if (!cut && so.c1[0] & 1)
                tag[0] ^= 4;
            JMap m = soc_fields(so, sealed, &q);
            if (!cut && !(so.c1[0] & 1))
                jdrop(m, q.pick({"c1", "c2", "c3", "iv", "encryptedKey", "keyType", "containerVersion", "keyUsage"}));
            in = soc_pack(jtext(m, &q), tag);
            want = soc_rights(so);
        }
        if (!cut && tj) {
            size_t x = (size_t) (std::find(in.begin(), in.end(), '.') - in.begin()) + 4 + q.below(8);   // in the first field name
            in[x] = in[x] == 'A' ? 'B' : 'A';
        }
        GBuf g(in);
        sa_import_parameters_typej pa = {kc, km};
        st = scoped([&] {
            return tj ? SA(c.s, key_import, &k, SA_KEY_FORMAT_TYPEJ, g.p, g.n, &pa) :
                        SA(c.s, key_import, &k, SA_KEY_FORMAT_SOC, g.p, g.n, so.has_params ? &so.params : nullptr);
        });
        Finally f{[&] {
            if (kc != INVALID_HANDLE) {
                SA(c.s, key_release, kc);
                SA(c.s, key_release, km);
            }
            if (st == SA_STATUS_OK)
                SA(c.s, key_release, k);
        }};
        if (st != SA_STATUS_OK || !cut)
            return st;
        sa_header h;
        std::string why;
        if (SA(c.s, key_header, &h, k) != SA_STATUS_OK || !rights_equal(h.rights, want))
            viol("wrong-result:container", "a container was imported with rights %s instead of %s", rights_str(h.rights).c_str(), rights_str(want).c_str());
        bool ok = true;
        int64_t nb = (int64_t) want.not_before, noa = (int64_t) want.not_on_or_after;
        w_time_on = true;
        w_time = nb;
        w_video_on = true;
        memset(&w_video, 0, sizeof w_video);
        w_video.svp_enabled = true;
        Finally ft{[] { w_time_on = w_video_on = false; }};
        if (tj)
            ok = nb >= noa || sym_matches(c.s, k, t.content, &why);
        else if (so.type == SA_KEY_TYPE_SYMMETRIC)
            ok = sym_matches(c.s, k, so.key, &why);
        else {
            Bytes pub;
            ok = key_pub(c.s, k, &pub) == SA_STATUS_OK && pub == pub_der(so.ek->pkey);
        }
        if (!ok)
            viol("wrong-result:container", "a container was imported but the key differs: %s", why.c_str());
        return st;
    }};
}
Act act_unwrap(Case& c) {   // private keys under a symmetric key
    bool rsa = c.r.coin(), gcm = c.r.coin();
    return {strf("unwrap-private:%s:%s", rsa ? "RSA" : "EC", gcm ? "GCM" : "CBC"), false, [&c, rsa, gcm](Rng& q) {
        EKey e = rsa ? rsa_pool(128, q.next()) : ec_generate(q, q.pick(curves_all()));
        Bytes iv = q.bytes(gcm ? 12 : 16), tag;
        secret_private(e.priv);
        const Bytes& mat = c.w.k(K_SYM16).mat;
        Bytes w = gcm ? ref_gcm_enc(mat, iv, Bytes(), e.priv, &tag) : ref_cbc(mat, iv, pkcs7(e.priv), true);
        sa_unwrap_parameters_aes_cbc pc = {iv.data(), 16};
        sa_unwrap_parameters_aes_gcm pg = {iv.data(), 12, nullptr, 0, tag.data(), tag.size()};
        sa_unwrap_type_parameters_ec te = {e.curve};
        sa_rights ra = rights_all();
        sa_key k = INVALID_HANDLE;
        sa_status st = scoped([&] {
            return SA(c.s, key_unwrap, &k, &ra, rsa ? SA_KEY_TYPE_RSA : SA_KEY_TYPE_EC, rsa ? nullptr : &te,
                    gcm ? SA_CIPHER_ALGORITHM_AES_GCM : SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, gcm ? (void*) &pg : (void*) &pc, c.w.h(K_SYM16), w.data(), w.size());
        });
        if (st == SA_STATUS_OK) {
            std::string why;
            if (!asym_matches(c.s, q, k, rsa, e, &why))
                viol("wrong-result:unwrap-private", "unwrapping succeeded but %s", why.c_str());
            SA(c.s, key_release, k);
        }
        if (!rsa)
            EVP_PKEY_free(e.pkey);
        return st;
    }};
}
Act act_session(Case& c) {
    bool client = c.r.coin();
    return {client ? "session:client" : "session:direct", false, [client](Rng& q) {
        sa_uuid u = client ? UUID_REE : mk_uuid(40);
        if (client) {
            void* x = nullptr;
            w_caller = u;
            w_caller_on = true;
            sa_status st = scoped([&] { return before_call(true, u), after_call("open_session", ta_open_session_handler(&x)); });
            if (st == SA_STATUS_OK)
                scoped([&] { return before_call(true, u), ta_close_session_handler(x), after_call("close_session", SA_STATUS_OK); });
            return st;
        }
        ta_client slot = 0;
        sa_status st = scoped([&] { return before_call(true, u), after_call("init", ta_sa_init(&slot, &u)); });
        if (st != SA_STATUS_OK)
            return st;
        Sess x(true, u);   // a second one, closed by hand
        x.close();
        x.slot = slot;
        x.open = true;
        for (OT t : {O_KEY, O_CIPHER, O_MAC})
            obj_create(x, q, t)->use(x, q);
        scoped([&] { return before_call(true, u), after_call("close", ta_sa_close(slot, &u)); });
        x.open = false;
        return st;
    }};
}
Act act_misc(Case& c) {
    int which = (int) c.r.below(5);
    return {strf("misc:%d", which), false, [&c, which](Rng& q) {
        FaultScope sc;
        sa_version v;
        char nm[256];
        size_t n = sizeof nm;
        uint64_t id;
        sa_uuid u;
        GBuf o(q.range(1, 100));
        switch (which) {
            case 0: return SA(c.s, get_version, &v);
            case 1: return SA(c.s, get_name, nm, &n);
            case 2: return SA(c.s, get_device_id, &id);
            case 3: return SA(c.s, get_ta_uuid, &u);
            default: return SA(c.s, crypto_random, o.p, o.n);
        }
    }};
}
Act act_provision(Case& c) {
    int which = (int) c.r.below(3);
    return {strf("provision:%d", which), false, [&c, which](Rng& q) {
        Soc so;
        so.type = SA_KEY_TYPE_EC;
        while (!so.has_params)
            so = soc_rand(q, true);
        so.ta.clear();
        Bytes tag, sealed = soc_seal(so, &tag), in = soc_pack(jtext(soc_fields(so, sealed, &q), &q), tag);
        GBuf g(in);
        uint8_t cert[32] = {1};
        WidevineOemProvisioning wv;
        PlayReadyProvisioning pr;
        NetflixProvisioning nf;
        memset(&wv, 0, sizeof wv);
        memset(&pr, 0, sizeof pr);
        memset(&nf, 0, sizeof nf);
        wv = {(unsigned) g.n, g.p, 32, cert};
        pr = {PLAYREADY_MODEL_3K, (unsigned) g.n, g.p, 32, cert};
        nf = {(unsigned) g.n, g.p, (unsigned) g.n, g.p, 32, cert};
        FaultScope sc;
        before_call(false, c.s.uuid);
        sa_status st = which == 0 ? sa_key_provision_ta(WIDEVINE_OEM_PROVISIONING, &wv, sizeof wv, &so.params) :
                       which == 1 ? sa_key_provision_ta(PLAYREADY_MODEL_PROVISIONING, &pr, sizeof pr, &so.params) :
                                    sa_key_provision_ta(NETFLIX_PROVISIONING, &nf, sizeof nf, &so.params);
        return after_call("key_provision_ta", st);
    }};
}
// one at random; and the platform and session an activity runs in
Act act_rand(Case& c, bool client) {
    switch (c.r.below(client ? 13 : 12)) {
        case 4: case 5: return act_fail(c);
        case 6: return act_object(c);
        case 7: return act_generate(c);
        case 8: return act_export_import(c);
        case 9: case 10: return act_container(c);
        case 11: return c.r.chance(20) ? act_misc(c) : c.r.chance(30) ? act_session(c) : act_unwrap(c);
        case 12: return act_provision(c);
        default: return act_op(c);
    }
}
// a TA session of its own for the client library, so that each case starts from nothing
struct ClientCtx {
    explicit ClientCtx(bool client) {
        g_ctx = nullptr;
        if (!client)
            return;
        w_caller = UUID_REE;
        w_caller_on = true;
        HCHECK(ta_open_session_handler(&g_ctx) == SA_STATUS_OK);
        w_invoke = intercept;
    }
    ~ClientCtx() { end(); }
    void end() {
        w_invoke = nullptr;
        if (g_ctx)
            ta_close_session_handler(g_ctx);
        g_ctx = nullptr;
    }
};
}   // namespace
