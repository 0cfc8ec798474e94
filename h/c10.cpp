// C10: a size query reports enough and changes nothing; short buffers are refused and never overrun; lengths are exact.
#include "ops.hpp"
namespace {
std::map<sa_elliptic_curve, std::vector<EKey>> g_ec;
void init() {
    Rng r(10);
    ops_warmup(r);
    for (auto c : curves_all())
        for (int i = 0; i < 2; i++)
            g_ec[c].push_back(ec_generate(r, c));
}
typedef std::function<sa_status(void*, size_t*)> Call;
size_t garbage(Rng& r) { return r.pick({(size_t) 0, (size_t) 1, SIZE_MAX, (size_t) r.below(5000), (size_t) 1 << 32}); }
size_t query(Rng& r, const char* name, const Call& f) {
    size_t L = garbage(r), had = L;
    sa_status st = f(nullptr, &L);
    if (st != SA_STATUS_OK)
        viol(strf("query-refused:%s", name), "%s: a size query gave %s (length argument %zu)", name, status_name(st), had);
    size_t M = garbage(r);
    st = f(nullptr, &M);
    if (st != SA_STATUS_OK || M != L)
        viol(strf("query-unstable:%s", name), "%s: a second size query gave %s and %zu after %zu", name, status_name(st), M, L);
    cov(strf("query:%s", name));
    return L;
}
void too_short(Rng& r, const char* name, const Call& f, size_t L) {
    if (L == 0)
        return;
    std::vector<size_t> ns = {L - 1, (size_t) r.below(L), (size_t) r.below(L)};
    if (L > 16)
        ns.push_back(L - 16);
    if (r.coin())
        ns.push_back(0);
    for (size_t n : ns) {
        GBuf b(n);
        size_t len = n;
        sa_status st = f(b.p, &len);
        if (!b.guards_ok())
            viol(strf("overrun:%s", name), "%s: a buffer of %zu bytes (%zu needed) was written past its end", name, n, L);
        if (st == SA_STATUS_OK)
            viol(strf("short-accepted:%s", name), "%s: a buffer of %zu bytes was accepted, %zu were reported as needed; %zu returned", name, n, L, len);
        cov(strf("short:%s", name));
    }
}
// what a call that fits writes: exactly the length it reports
Bytes fits(const char* name, const Call& f, size_t L, size_t n) {
    GBuf b(n);
    size_t len = n;
    sa_status st = f(b.p, &len);
    if (!b.guards_ok())
        viol(strf("overrun:%s", name), "%s: a buffer of %zu bytes was written past its end", name, n);
    if (st != SA_STATUS_OK)
        viol(strf("fit-refused:%s", name), "%s: a buffer of %zu bytes was refused (%s), %zu were reported as enough", name, n, status_name(st), L);
    if (len > L)
        viol(strf("longer-than-reported:%s", name), "%s: %zu bytes returned, %zu reported", name, len, L);
    for (size_t i = len; i < n; i++)
        if (b.p[i] != 0xA5)
            viol(strf("written-beyond-length:%s", name), "%s: returned %zu but byte %zu was written", name, len, i);
    if (len > 24) {   // and the last bytes were written, not left
        size_t i = len;
        while (i > 0 && b.p[i - 1] == 0xA5)
            i--;
        if (len - i > 8)
            viol(strf("length-too-large:%s", name), "%s: returned %zu but only %zu bytes were written", name, len, i);
    }
    cov(strf("fit:%s", name));
    return b.get(0, len);
}
Bytes sizes(Rng& r, const char* name, const Call& f, const Bytes* expect) {
    size_t L = query(r, name, f);
    if (expect && L < expect->size())
        viol(strf("reported-too-small:%s", name), "%s: %zu bytes reported, the result has %zu", name, L, expect->size());
    if (r.chance(80))
        too_short(r, name, f, L);
    Bytes a = fits(name, f, L, r.coin() ? L : L + r.range(1, 100));
    if (expect && a != *expect)
        viol(strf("wrong-output:%s", name), "%s: the result after queries and short buffers is not the expected one: %s", name, hex(a).c_str());
    return a;
}
void t_public(Sess& s, Rng& r) {
    sa_key k;
    Bytes want;
    bool know = true;
    std::string name;
    unsigned o = (unsigned) r.below(10);
    if (o < 3) {
        size_t n = r.pick({128, 256, 384, 512});
        const EKey& e = rsa_pool(n, r.next());
        k = must_rsa(s, e);
        want = pub_der(e.pkey);
        name = strf("public:rsa-%zu", n);
    } else if (o < 8) {
        const EKey& e = r.pick(g_ec[r.pick(curves_all())]);
        k = must_ec(s, e);
        want = pub_der(e.pkey);
        name = strf("public:%s", curve_name(e.curve));
    } else {
        k = make_key(s, r, K_DH, rights_all()).h;
        know = false;
        name = "public:dh";
    }
    Finally f{[&] { SA(s, key_release, k); }};
    Call c = [&](void* p, size_t* n) { return SA(s, key_get_public, p, n, k); };
    Bytes a = sizes(r, name.c_str(), c, know ? &want : nullptr), b = sizes(r, name.c_str(), c, &a);
}
void t_export(Sess& s, Rng& r) {
    KInfo k = make_key(s, r, (KK) r.below(K_COUNT), rights_all());
    Finally f{[&] {
        SA(s, key_release, k.h);
        if (k.ek.pkey && k.kind != K_RSA)
            EVP_PKEY_free(k.ek.pkey);
    }};
    Bytes mixin = r.bytes(16);
    bool m = r.coin();
    Bytes c = sizes(r, "export", [&](void* p, size_t* n) { return SA(s, key_export, p, n, m ? mixin.data() : nullptr, m ? 16 : 0, k.h); }, nullptr);
    sa_key n;
    sa_status st = SA(s, key_import, &n, SA_KEY_FORMAT_EXPORTED, c.data(), c.size(), nullptr);
    if (st != SA_STATUS_OK)
        viol("export-unusable", "an export made after size queries does not import: %s", status_name(st));
    SA(s, key_release, n);
}
void t_digest(Sess& s, Rng& r) {
    Bytes m = r.bytes(r.range(16, 512));
    sa_key k = must_sym(s, m);
    Finally f{[&] { SA(s, key_release, k); }};
    for (auto d : DIGESTS) {
        Bytes want = ref_digest(d, m);
        sizes(r, strf("digest:%zu", want.size()).c_str(), [&](void* p, size_t* n) { return SA(s, key_digest, p, n, k, d); }, &want);
    }
}
void t_name(Sess& s, Rng& r) {
    sizes(r, "name", [&](void* p, size_t* n) { return SA(s, get_name, (char*) p, n); }, nullptr);
}
void t_mac(Sess& s, Rng& r) {
    bool hmac = r.coin();
    Bytes key = r.bytes(hmac ? r.range(16, 200) : r.pick({16, 32})), data;
    auto d = r.pick(DIGESTS);
    sa_key k = must_sym(s, key);
    sa_crypto_mac_context c = INVALID_HANDLE;
    Finally f{[&] {
        if (c != INVALID_HANDLE)
            SA(s, crypto_mac_release, c);
        SA(s, key_release, k);
    }};
    sa_mac_parameters_hmac hp = {d};
    sa_status st = SA(s, crypto_mac_init, &c, hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, k, hmac ? &hp : nullptr);
    HCHECK(st == SA_STATUS_OK);
    Call call = [&](void* p, size_t* n) { return SA(s, crypto_mac_compute, p, n, c); };
    std::string name = hmac ? strf("hmac:%zu", digest_len(d)) : "cmac";
    for (int i = (int) r.below(5); i >= 0; i--) {   // queries and refusals between pieces of the message
        Bytes b = r.bytes(r.len(200));
        if ((st = SA(s, crypto_mac_process, c, b.data(), b.size())) != SA_STATUS_OK)
            viol("mac-feed", "process after size queries gave %s", status_name(st));
        app(data, b);
        if (r.coin()) {
            size_t L = query(r, name.c_str(), call);
            if (r.coin())
                too_short(r, name.c_str(), call, L);
        }
    }
    Bytes want = hmac ? ref_hmac(d, key, data) : ref_cmac(key, data);
    sizes(r, name.c_str(), call, &want);
}
void t_sign(Sess& s, Rng& r) {
    sa_sign_parameters_ecdsa ec{};
    sa_sign_parameters_rsa_pss pss{};
    sa_sign_parameters_rsa_pkcs1v15 v15{};
    auto d = r.pick(DIGESTS), m = r.pick(DIGESTS);
    bool pre = r.coin();
    Bytes in = r.bytes(pre ? digest_len(d) : r.below(300));
    sa_key k;
    EVP_PKEY* pk;
    sa_signature_algorithm alg;
    void* p;
    std::string name;
    size_t salt = 0;
    sa_elliptic_curve cv{};
    if (r.chance(40)) {
        size_t n = r.pick({128, 128, 256, 384});
        const EKey& e = rsa_pool(n, r.next());
        k = must_rsa(s, e);
        pk = e.pkey;
        salt = r.below(n - digest_len(d) - 1);
        alg = r.coin() ? SA_SIGNATURE_ALGORITHM_RSA_PSS : SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15;
        pss.digest_algorithm = d;
        pss.precomputed_digest = pre;
        pss.mgf1_digest_algorithm = m;
        pss.salt_length = salt;
        v15.digest_algorithm = d;
        v15.precomputed_digest = pre;
        p = alg == SA_SIGNATURE_ALGORITHM_RSA_PSS ? (void*) &pss : (void*) &v15;
        name = strf("sign:rsa-%zu", n);
    } else {
        cv = r.pick(curves_all());
        if (cv == SA_ELLIPTIC_CURVE_X25519 || cv == SA_ELLIPTIC_CURVE_X448)
            cv = SA_ELLIPTIC_CURVE_ED448;
        const EKey& e = r.pick(g_ec[cv]);
        k = must_ec(s, e);
        pk = e.pkey;
        bool ed = !curve_is_nist(cv);
        alg = ed ? SA_SIGNATURE_ALGORITHM_EDDSA : SA_SIGNATURE_ALGORITHM_ECDSA;
        if (ed)
            pre = false;
        ec.digest_algorithm = d;
        ec.precomputed_digest = pre;
        p = ed ? nullptr : (void*) &ec;
        name = strf("sign:%s", curve_name(cv));
    }
    Finally f{[&] { SA(s, key_release, k); }};
    Bytes sig = sizes(r, name.c_str(), [&](void* o, size_t* n) { return SA(s, crypto_sign, o, n, alg, k, in.data(), in.size(), p); }, nullptr);
    if (!verify_sig(pk, alg, ref_md(d), ref_md(m), (int) salt, pre, cv, in, sig))
        viol(strf("wrong-output:%s", name.c_str()), "%s: the signature after queries and short buffers does not verify", name.c_str());
}
// One processing call with queries and refusals before it. Output lands in acc.
struct Stream {
    Sess& s;
    Rng& r;
    sa_crypto_cipher_context c;
    std::string name;
    bool svp_out, svp_in;
    Bytes in, acc;
    std::unique_ptr<Mem> mi;
    size_t at = 0;
};
void piece(Stream& x, size_t n, bool last, void* end) {
    Sess& s = x.s;
    Rng& r = x.r;
    std::string nm = x.name + (last ? "/last" : "");
    const char* name = nm.c_str();
    auto call = [&](sa_buffer* o, sa_buffer* i, size_t* len) {
        return last ? SA(s, crypto_cipher_process_last, o, x.c, i, len, end) : SA(s, crypto_cipher_process, o, x.c, i, len);
    };
    size_t L = 0;
    auto q = [&](int round) {
        sa_buffer ib = x.mi->buf(x.at);
        size_t len = n;
        sa_status st = call(nullptr, &ib, &len);
        if (st != SA_STATUS_OK)
            viol(strf("query-refused:%s", name), "%s: a size query for %zu bytes gave %s", name, n, status_name(st));
        if (off_of(ib) != x.at)
            viol(strf("query-consumed:%s", name), "%s: a size query moved the input offset by %zu", name, off_of(ib) - x.at);
        if (round && len != L)
            viol(strf("query-unstable:%s", name), "%s: size queries for %zu bytes gave %zu and %zu", name, n, L, len);
        L = len;
        cov(strf("query:%s", name));
    };
    q(0);
    if (r.coin())
        q(1);
    size_t oo = r.coin() ? 0 : r.below(40);
    // padding on encryption is counted in the size although it only comes with the last call: room for the piece itself is not short
    bool counts_padding = !last && x.name.find("PKCS7/enc") != std::string::npos;
    if (L > 0 && r.chance(70)) {
        for (int i = 0; i < 2; i++) {
            size_t lim = counts_padding ? n : L;
            if (lim == 0)
                continue;
            size_t room = i ? lim - 1 : r.below(lim);
            Mem mo(s, x.svp_out, oo + room + (x.svp_out && oo + room == 0));
            if (oo + room == 0 && x.svp_out)
                continue;
            sa_buffer ib = x.mi->buf(x.at), ob = mo.buf(oo);
            Bytes before = mo.g.get();
            size_t len = n;
            sa_status st = call(&ob, &ib, &len);
            if (!mo.g.guards_ok())
                viol(strf("overrun:%s", name), "%s: a buffer with room for %zu bytes (%zu needed) was written past its end", name, room, L);
            if (st == SA_STATUS_OK)
                viol(strf("short-accepted:%s", name), "%s: %zu bytes were processed into room for %zu, %zu were reported as needed; %zu returned", name, n, room, L, len);
            if (mo.g.get() != before)
                viol(strf("refused-written:%s", name), "%s: a refused call wrote output", name);
            if (off_of(ib) != x.at || off_of(ob) != oo)
                viol(strf("refused-moved:%s", name), "%s: a refused call moved an offset", name);
            cov(strf("short:%s", name));
        }
        if (r.coin())
            q(1);   // still the same
    }
    size_t extra = r.coin() ? 0 : r.range(1, 60);
    if (oo + L + extra == 0)
        extra = 1;
    Mem mo(s, x.svp_out, oo + L + extra);
    sa_buffer ib = x.mi->buf(x.at), ob = mo.buf(oo);
    size_t len = n;
    sa_status st = call(&ob, &ib, &len);
    if (!mo.g.guards_ok())
        viol(strf("overrun:%s", name), "%s: a buffer with room for %zu bytes was written past its end", name, L + extra);
    if (st != SA_STATUS_OK)
        viol(strf("fit-refused:%s", name), "%s: %zu bytes into room for %zu gave %s, %zu were reported as enough", name, n, L + extra, status_name(st), L);
    if (len > L)
        viol(strf("longer-than-reported:%s", name), "%s: %zu bytes returned, %zu reported", name, len, L);
    if (off_of(ib) != x.at + n || off_of(ob) != oo + len)
        viol(strf("offsets:%s", name), "%s: %zu bytes in, %zu out, offsets moved by %zu and %zu", name, n, len, off_of(ib) - x.at, off_of(ob) - oo);
    for (size_t i = 0; i < mo.g.n; i++)
        if ((i < oo || i >= oo + len) && mo.g.p[i] != 0xA5)
            viol(strf("written-beyond-length:%s", name), "%s: %zu bytes returned at %zu, byte %zu was written too", name, len, oo, i);
    app(x.acc, mo.g.get(oo, len));
    x.at += n;
    cov(strf("fit:%s", name));
}
void t_cipher(Sess& s, Rng& r) {
    static const sa_cipher_algorithm A[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7,
            SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305};
    auto alg = r.pick(A);
    bool cc = alg == SA_CIPHER_ALGORITHM_CHACHA20 || alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    bool aead = alg == SA_CIPHER_ALGORITHM_AES_GCM || alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    bool pad = alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7;
    bool block = pad || alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_CBC;
    bool enc = r.coin();
    Bytes key = r.bytes(cc || r.coin() ? 32 : 16);
    sa_key k = must_sym(s, key);
    sa_crypto_cipher_context c = INVALID_HANDLE;
    Finally fin{[&] {
        if (c != INVALID_HANDLE)
            SA(s, crypto_cipher_release, c);
        SA(s, key_release, k);
    }};
    CParams p;
    cparams_rand(p, r, alg);
    sa_status st = cinit(s, &c, alg, enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k, p);
    if (st != SA_STATUS_OK)
        viol("cipher-init", "init gave %s", status_name(st));
    size_t n = r.len(300);
    if (block && !pad)
        n = n / 16 * 16 + 16;
    Bytes pt = r.bytes(n), ct, tag;
    switch (alg) {
        case SA_CIPHER_ALGORITHM_AES_ECB: ct = ref_ecb(key, pt, true); break;
        case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: ct = ref_ecb(key, pkcs7(pt), true); break;
        case SA_CIPHER_ALGORITHM_AES_CBC: ct = ref_cbc(key, p.iv, pt, true); break;
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: ct = ref_cbc(key, p.iv, pkcs7(pt), true); break;
        case SA_CIPHER_ALGORITHM_AES_CTR: ct = ref_ctr(key, p.ctr, pt); break;
        case SA_CIPHER_ALGORITHM_AES_GCM: ct = ref_gcm_enc(key, p.iv, p.aad, pt, &tag); break;
        case SA_CIPHER_ALGORITHM_CHACHA20: ct = ref_chacha(key, p.ctr, p.nonce, pt); break;
        default: ct = ref_ccp_enc(key, p.nonce, p.aad, pt, &tag); break;
    }
    Stream x{s, r, c, strf("%s/%s", alg_name(alg), enc ? "enc" : "dec"), !aead && r.chance(25), false, enc ? pt : ct, {}, nullptr};
    x.svp_in = x.svp_out && r.coin();
    x.mi.reset(new Mem(s, x.svp_in, std::max<size_t>(x.in.size(), 1)));
    if (!x.in.empty())
        memcpy(x.mi->g.p, x.in.data(), x.in.size());
    size_t total = x.in.size();
    bool has_last = pad || aead || alg == SA_CIPHER_ALGORITHM_AES_CTR || alg == SA_CIPHER_ALGORITHM_CHACHA20;
    size_t tail = !has_last ? 0 : pad ? enc ? n % 16 : 16 : r.below(std::min<size_t>(total, 16) + 1);
    while (x.at < total - tail) {
        size_t left = total - tail - x.at, m = r.chance(30) ? left : r.range(1, left);
        if (block)
            m = std::max<size_t>(m / 16 * 16, 16);
        piece(x, m, false, nullptr);
    }
    if (has_last) {
        GBuf gt(aead ? enc ? Bytes(16, 0xA5) : tag : Bytes());
        sa_cipher_end_parameters_aes_gcm pg{gt.p, 16};
        sa_cipher_end_parameters_chacha20_poly1305 pc{gt.p, 16};
        piece(x, tail, true, !aead ? nullptr : alg == SA_CIPHER_ALGORITHM_AES_GCM ? (void*) &pg : (void*) &pc);
        if (aead && gt.get() != tag)
            viol(strf("wrong-tag:%s", x.name.c_str()), "%s: after size queries and short buffers the tag is wrong", x.name.c_str());
    }
    const Bytes& want = enc ? ct : pt;
    if (x.acc != want)
        viol(strf("wrong-output:%s", x.name.c_str()), "%s: after size queries and short buffers the output of %zu bytes is not the standard result of %zu", x.name.c_str(),
                x.acc.size(), want.size());
}
void t_asym(Sess& s, Rng& r) {
    sa_key k;
    sa_crypto_cipher_context c = INVALID_HANDLE;
    sa_status st;
    Bytes in, want;
    CParams p;
    std::string name;
    bool rsa = r.chance(60);
    if (rsa) {
        size_t n = r.pick({128, 128, 256, 512});
        const EKey& e = rsa_pool(n, r.next());
        k = must_rsa(s, e);
        bool oaep = r.coin();
        auto alg = oaep ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
        if (oaep) {
            do
                cparams_rand(p, r, alg);
            while (n < 2 * digest_len(p.oaep.digest_algorithm) + 2);
        }
        size_t max = n - (oaep ? 2 * digest_len(p.oaep.digest_algorithm) + 2 : 11);
        want = r.bytes(r.chance(30) ? r.pick({(size_t) 0, max}) : r.below(max + 1));
        in = oaep ? rsa_encrypt(e.pkey, true, ref_md(p.oaep.digest_algorithm), ref_md(p.oaep.mgf1_digest_algorithm), &p.label, want)
                  : rsa_encrypt(e.pkey, false, nullptr, nullptr, nullptr, want);
        st = cinit(s, &c, alg, SA_CIPHER_MODE_DECRYPT, k, p);
        name = strf("%s-%zu", oaep ? "oaep" : "pkcs1v15", n);
    } else {
        sa_elliptic_curve cv;
        do
            cv = r.pick(curves_all());
        while (!curve_is_nist(cv));
        const EKey& e = r.pick(g_ec[cv]);
        k = must_ec(s, e);
        want = elgamal_plain(e.pkey, cv, r);
        in = elgamal_encrypt(e.pkey, cv, want, r);
        st = cinit(s, &c, SA_CIPHER_ALGORITHM_EC_ELGAMAL, SA_CIPHER_MODE_DECRYPT, k, p);
        name = strf("elgamal-%s", curve_name(cv));
    }
    Finally fin{[&] {
        if (c != INVALID_HANDLE)
            SA(s, crypto_cipher_release, c);
        SA(s, key_release, k);
    }};
    if (st != SA_STATUS_OK)
        viol("asym-init", "%s: init gave %s", name.c_str(), status_name(st));
    Stream x{s, r, c, name, false, false, in, {}, nullptr};
    x.mi.reset(new Mem(s, false, in.size()));
    memcpy(x.mi->g.p, in.data(), in.size());
    piece(x, in.size(), false, nullptr);
    if (x.acc != want)
        viol(strf("wrong-output:%s", name.c_str()), "%s: after size queries and short buffers %zu bytes came out for %zu", name.c_str(), x.acc.size(), want.size());
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    uint64_t h = r.s;
    for (int i = 0; i < 6; i++)
        switch (r.below(12)) {
            case 0: t_public(s, r); break;
            case 1: t_export(s, r); break;
            case 2: t_digest(s, r); break;
            case 3: t_sign(s, r); break;
            case 4: t_mac(s, r); break;
            case 5: t_asym(s, r); break;
            case 6: t_name(s, r); break;
            default: t_cipher(s, r); break;
        }
    nontrivial(h);
}
}
Harness harness() {
    return {"each case runs 6 operations that return data (public key, export, digest, signature, MAC, name, every symmetric and asymmetric cipher, piecewise): "
            "size queries (with any value in the length), buffers shorter than reported at random and by one byte, then buffers of exactly the reported size or "
            "larger, all inside guarded memory; the results are compared with references, so a query that consumed or changed state shows; every case counts as "
            "non-trivial", init, one, nullptr};
}
