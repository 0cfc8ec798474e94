// C05: output protection flags gate every use of a key; protected data reaches clear memory only with SVP_OPTIONAL.
#include "ops.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
#define BIT(F) SA_USAGE_BIT_MASK(SA_USAGE_FLAG_##F)
video_output_state_t vstate(Rng& r, uint64_t flags, int style) {
    video_output_state_t v;
    memset(&v, 0, sizeof v);
    auto cnt = [&] { return (decltype(v.analog_cgmsa_count)) (r.chance(20) ? r.range(1, 255) : 1); };
    v.svp_enabled = true;
    if (style == 0) {   // exactly what the flags permit
        if (flags & BIT(ALLOWED_ANALOG_UNPROTECTED)) v.analog_unprotected_count = cnt();
        if (flags & BIT(ALLOWED_ANALOG_CGMSA)) v.analog_cgmsa_count = cnt();
        if (flags & BIT(ALLOWED_DIGITAL_UNPROTECTED)) v.digital_unprotected_count = cnt();
        if (flags & BIT(ALLOWED_DIGITAL_HDCP14)) v.digital_hdcp14_count = cnt();
        if (flags & BIT(ALLOWED_DIGITAL_HDCP22)) v.digital_hdcp22_count = cnt();
        if (flags & BIT(SVP_OPTIONAL)) v.svp_enabled = r.coin();
        return v;
    }
    if (style == 1) {   // one output beyond what is permitted
        v = vstate(r, r.coin() ? flags : 0, 0);
        switch (r.below(6)) {
            case 0: v.analog_unprotected_count = cnt(); break;
            case 1: v.analog_cgmsa_count = cnt(); break;
            case 2: v.digital_unprotected_count = cnt(); break;
            case 3: v.digital_hdcp14_count = cnt(); break;
            case 4: v.digital_hdcp22_count = cnt(); break;
            default: v.svp_enabled = false; break;
        }
        return v;
    }
    if (style == 2)
        return v;   // no output at all
    v.analog_unprotected_count = r.coin() ? cnt() : 0;
    v.analog_cgmsa_count = r.coin() ? cnt() : 0;
    v.digital_unprotected_count = r.coin() ? cnt() : 0;
    v.digital_hdcp14_count = r.coin() ? cnt() : 0;
    v.digital_hdcp22_count = r.coin() ? cnt() : 0;
    v.svp_enabled = r.coin();
    return v;
}
bool permits(uint64_t f, const video_output_state_t& v) {
    return (f & BIT(SVP_OPTIONAL) || v.svp_enabled) && (f & BIT(ALLOWED_ANALOG_UNPROTECTED) || !v.analog_unprotected_count) &&
           (f & BIT(ALLOWED_ANALOG_CGMSA) || !v.analog_cgmsa_count) &&
           (f & BIT(ALLOWED_DIGITAL_UNPROTECTED) || !v.digital_unprotected_count) &&
           (f & BIT(ALLOWED_DIGITAL_HDCP14) || !v.digital_hdcp14_count) && (f & BIT(ALLOWED_DIGITAL_HDCP22) || !v.digital_hdcp22_count);
}
uint64_t vbits(const video_output_state_t& v) {
    return (v.analog_unprotected_count ? 1 : 0) | (v.analog_cgmsa_count ? 2 : 0) | (v.digital_unprotected_count ? 4 : 0) |
           (v.digital_hdcp14_count ? 8 : 0) | (v.digital_hdcp22_count ? 16 : 0) | (v.svp_enabled ? 32 : 0);
}
std::string vstr(const video_output_state_t& v) {
    return strf("analog-unprotected %d cgmsa %d digital-unprotected %d hdcp14 %d hdcp22 %d svp %d", (int) v.analog_unprotected_count,
            (int) v.analog_cgmsa_count, (int) v.digital_unprotected_count, (int) v.digital_hdcp14_count, (int) v.digital_hdcp22_count,
            (int) v.svp_enabled);
}
// data that is already protected is never delivered to clear memory, whatever the key's rights
void svp_to_clear(Sess& s, Rng& r) {
    struct { sa_cipher_algorithm a; } algs[] = {{SA_CIPHER_ALGORITHM_AES_ECB}, {SA_CIPHER_ALGORITHM_AES_ECB_PKCS7},
            {SA_CIPHER_ALGORITHM_AES_CBC}, {SA_CIPHER_ALGORITHM_AES_CBC_PKCS7}, {SA_CIPHER_ALGORITHM_AES_CTR},
            {SA_CIPHER_ALGORITHM_AES_GCM}, {SA_CIPHER_ALGORITHM_CHACHA20}, {SA_CIPHER_ALGORITHM_CHACHA20_POLY1305}};
    auto a = r.pick(algs).a;
    bool enc = r.coin(), aead = a == SA_CIPHER_ALGORITHM_AES_GCM || a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    bool nolast = a == SA_CIPHER_ALGORITHM_AES_ECB || a == SA_CIPHER_ALGORITHM_AES_CBC;
    KInfo k = make_key(s, r, K_SYM32, rights_all());
    CParams p;
    cparams_rand(p, r, a);
    int how = (int) r.below(!enc && (a == SA_CIPHER_ALGORITHM_AES_CTR || a == SA_CIPHER_ALGORITHM_AES_CBC) ? 3 : nolast ? 1 : 2);
    sa_crypto_cipher_context c;
    sa_status st = cinit(s, &c, a, enc || how == 3 ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k.h, p);
    HCHECK(st == SA_STATUS_OK);
    GBuf in(64), out(128);
    Bytes content = r.bytes(64);
    memcpy(in.p, content.data(), 64);
    sa_svp_buffer hb;
    HCHECK(SA(s, svp_buffer_create, &hb, in.p, in.n) == SA_STATUS_OK);
    sa_buffer ib = svp_buf(hb), ob = clear_buf(out.p, out.n);
    size_t len = 16 * r.range(1, 3);
    const char* fn;
    if (how == 0) {
        fn = "process";
        st = SA(s, crypto_cipher_process, &ob, c, &ib, &len);
    } else if (how == 1) {
        fn = "process_last";
        len = 16;
        GBuf t(16);
        sa_cipher_end_parameters_aes_gcm ep = {t.p, 16};
        st = SA(s, crypto_cipher_process_last, &ob, c, &ib, &len, aead ? &ep : nullptr);
    } else {
        fn = "common_encryption";
        Bytes iv = r.bytes(16);
        sa_subsample_length sl = {r.coin() ? 0 : len, 0};
        sl.bytes_of_protected_data = len - sl.bytes_of_clear_data;
        sa_sample sm = {iv.data(), 16, 0, 0, 1, &sl, c, &ob, &ib};
        st = SA(s, process_common_encryption, 1, &sm);
    }
    if (st == SA_STATUS_OK)
        viol(strf("svp-to-clear:%s:%s", fn, alg_name(a)), "%s %s from an SVP buffer to a clear one was accepted", alg_name(a), fn);
    for (size_t i = 0; i < out.n; i++)
        if (out.p[i] != 0xA5)
            viol(strf("svp-to-clear-written:%s:%s", fn, alg_name(a)), "a refused SVP to clear call wrote byte %zu", i);
    cov(strf("svp-to-clear:%s", fn));
    nontrivial(mix64(0x5c, (uint64_t) a * 8 + (uint64_t) how * 2 + enc));
    SA(s, crypto_cipher_release, c);
    void* m;
    size_t sz;
    SA(s, svp_buffer_release, &m, &sz, hb);
    SA(s, key_release, k.h);
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    for (int round = 0; round < 3; round++) {
        KK kind = r.coin() ? (r.coin() ? K_SYM16 : K_SYM32) : (KK) r.below(K_COUNT);
        sa_rights rt = rights_all();
        uint64_t prot = (r.next() & 0x3f) << 6;
        if (r.chance(25))
            prot = 0x3full << 6 & ~(1ull << r.range(6, 11));
        rt.usage_flags = (rt.usage_flags & ~(BIT(SVP_OPTIONAL) | BIT(ALLOWED_ANALOG_UNPROTECTED) | BIT(ALLOWED_ANALOG_CGMSA) |
                BIT(ALLOWED_DIGITAL_UNPROTECTED) | BIT(ALLOWED_DIGITAL_HDCP14) | BIT(ALLOWED_DIGITAL_HDCP22) |
                BIT(ALLOWED_DIGITAL_DTCP))) | (r.next() & (BIT(ALLOWED_ANALOG_UNPROTECTED) | BIT(ALLOWED_ANALOG_CGMSA) |
                BIT(ALLOWED_DIGITAL_UNPROTECTED) | BIT(ALLOWED_DIGITAL_HDCP14) | BIT(ALLOWED_DIGITAL_HDCP22) |
                BIT(ALLOWED_DIGITAL_DTCP))) | (r.chance(60) ? BIT(SVP_OPTIONAL) : 0);
        (void) prot;
        w_video_on = false;
        KInfo k = make_key(s, r, kind, rt);
        w_video_on = true;
        w_video = vstate(r, rt.usage_flags, 0);
        if (kind == K_DH && key_pub(s, k.h, &k.dh_pub) != SA_STATUS_OK)
            viol("public-refused", "public key refused with permitted outputs");
        auto v = ops_for(kind);
        size_t n = r.range(2, 5);
        for (size_t i = 0; i < n; i++) {
            const Op& o = *r.pick(v);
            OpEnv e{s, r, k, k.h};
            video_output_state_t v0 = vstate(r, rt.usage_flags, (int) r.below(4)), v1 = v0;
            bool fail = r.chance(4), moves = o.sym_cipher && r.coin(), fail1 = fail;
            if (moves) {
                if (r.chance(70)) {
                    v0 = vstate(r, rt.usage_flags, 0);
                    fail = false;
                }
                v1 = vstate(r, rt.usage_flags, (int) r.below(4));
                fail1 = r.chance(8);
                e.mid = [&] {
                    w_video = v1;
                    w_video_fail = fail1;
                };
            }
            if (o.sym_cipher && r.coin())
                e.svp_out = o.svp_able;
            w_video = v0;
            w_video_fail = fail;
            bool in0 = permits(rt.usage_flags, v0) && !fail, in1 = permits(rt.usage_flags, v1) && !fail1;
            bool clear_ok = !o.clear || (e.svp_out && o.svp_able) || (rt.usage_flags & BIT(SVP_OPTIONAL));
            // plaintext of an RSA or EC context is also delivered to clear memory only
            bool expect = !o.load || (in0 && in1 && clear_ok);
            // helper keys and children of the operation have all rights; with a failing poll nothing loads, so
            // operations on the result are not possible either
            sa_status st = run_op(o, e);
            w_video_fail = false;
            std::string at = strf("%s with a %s key of usage 0x%" PRIx64 " and outputs {%s}%s%s", o.name.c_str(), kk_name(kind),
                    rt.usage_flags, vstr(v0).c_str(), fail ? " poll failing" : "",
                    moves ? strf(" then {%s}%s", vstr(v1).c_str(), fail1 ? " poll failing" : "").c_str() : "");
            if (expect && st != SA_STATUS_OK)
                viol(strf("refused:%s", o.name.c_str()), "%s gave %s", at.c_str(), status_name(st));
            if (!expect && st == SA_STATUS_OK)
                viol(strf("allowed:%s%s", o.name.c_str(), in0 && in1 ? ":clear" : in0 ? ":moved" : ""), "%s succeeded", at.c_str());
            if (!expect && st != SA_STATUS_OPERATION_NOT_ALLOWED && !(fail || fail1))
                viol(strf("status:%s", o.name.c_str()), "%s gave %s", at.c_str(), status_name(st));
            if (!expect && !in0 && e.stage != 0)
                viol(strf("late:%s", o.name.c_str()), "%s: refused only after a context had been created", at.c_str());
            cov(strf("%s:%s", !o.load ? "ungated" : expect ? "permitted" : !in0 ? "outputs" : !in1 ? "outputs-changed" : "clear",
                    o.name.c_str()));
            nontrivial(hash_bytes(o.name.data(), o.name.size(),
                    ((rt.usage_flags >> 6 & 0x7f) << 14) + (vbits(v0) << 8) + (moves ? vbits(v1) << 2 : 0) + moves * 2 + e.svp_out));
        }
        w_video_on = false;
        SA(s, key_release, k.h);
    }
    svp_to_clear(s, r);
    if (index % 2000 == 0)
        sample(strf("case seed %" PRIu64 ": keys with random protection flags, outputs set before and during each operation", g_case_seed));
}
}   // namespace
Harness harness() {
    return {"keys of random kind with random output protection flags; a simulated platform reports a random set of active outputs (exactly "
            "the permitted ones, one more, none, random, or fails) before each catalogued operation and again while a cipher context is "
            "open; output to clear and SVP buffers; SVP input with clear output. Distinct: operation x flags x outputs before and during",
            init, one, nullptr};
}
