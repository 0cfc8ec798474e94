// C09: authenticated decryption and PKCS7 decryption accept exactly the genuine messages.
#include "ops.hpp"
namespace {
struct Tuple {   // what a decryption is given
    Bytes key, iv, aad, ct, tag;
};
bool g_gcm;
Bytes seal(const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& pt, Bytes* tag) {
    return g_gcm ? ref_gcm_enc(key, iv, aad, pt, tag) : ref_ccp_enc(key, iv, aad, pt, tag);
}
// the plaintext and the tag belonging to a ciphertext
Bytes model(const Tuple& t, Bytes* tag16) {
    Bytes tg, pt = seal(t.key, t.iv, t.aad, Bytes(t.ct.size()), &tg);   // the key stream
    for (size_t i = 0; i < pt.size(); i++)
        pt[i] ^= t.ct[i];
    seal(t.key, t.iv, t.aad, pt, tag16);
    return pt;
}
struct Ctx {
    Sess& s;
    sa_key k;
    sa_crypto_cipher_context c = INVALID_HANDLE;
    ~Ctx() {
        quietly([&] {
            if (c != INVALID_HANDLE)
                SA(s, crypto_cipher_release, c);
            SA(s, key_release, k);
        });
    }
};
sa_status init_aead(Sess& s, Rng& r, Ctx& x, sa_cipher_mode mode, const Bytes& iv, const Bytes& aad) {
    GBuf giv(iv), gaad(aad);
    bool null = aad.empty() && r.coin();
    if (g_gcm) {
        sa_cipher_parameters_aes_gcm p{giv.p, giv.n, null ? nullptr : gaad.p, aad.size()};
        return SA(s, crypto_cipher_init, &x.c, SA_CIPHER_ALGORITHM_AES_GCM, mode, x.k, &p);
    }
    sa_cipher_parameters_chacha20_poly1305 p{giv.p, giv.n, null ? nullptr : gaad.p, aad.size()};
    return SA(s, crypto_cipher_init, &x.c, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, mode, x.k, &p);
}
struct Run {
    sa_status last = SA_STATUS_INTERNAL_ERROR;
    Bytes out, tag;
    bool reached = false;   // the final call was made
};
const char* nm() { return g_gcm ? "gcm" : "ccp"; }
// refused calls that must not touch the stream
void disturb(Sess& s, Rng& r, Ctx& x) {
    GBuf in(Bytes(48)), out(48);
    Bytes before = out.get();
    sa_buffer ib = clear_buf(in.p, in.n), ob = clear_buf(out.p, out.n);
    size_t n = 16;
    sa_status st;
    GBuf tag(32);
    sa_cipher_end_parameters_aes_gcm pg{tag.p, 16};
    sa_cipher_end_parameters_chacha20_poly1305 pc{tag.p, 16};
    const char* kind;
    switch (r.below(6)) {
        case 0:
            kind = "long tag";
            pg.tag_length = 17 + r.below(20);
            pc.tag_length = r.coin() ? 17 : r.below(16);
            st = SA(s, crypto_cipher_process_last, &ob, x.c, &ib, &n, g_gcm ? (void*) &pg : (void*) &pc);
            break;
        case 1:
            kind = "no tag";
            pg.tag = pc.tag = nullptr;
            st = SA(s, crypto_cipher_process_last, &ob, x.c, &ib, &n, g_gcm ? (void*) &pg : (void*) &pc);
            break;
        case 2:
            kind = "no end parameters";
            st = SA(s, crypto_cipher_process_last, &ob, x.c, &ib, &n, nullptr);
            break;
        case 3:
            kind = "short output";
            ob = clear_buf(out.p, 15);
            st = SA(s, crypto_cipher_process, &ob, x.c, &ib, &n);
            break;
        case 4:
            kind = "short input";
            ib = clear_buf(in.p, 15);
            st = SA(s, crypto_cipher_process, &ob, x.c, &ib, &n);
            break;
        default:
            kind = "size query";
            st = SA(s, crypto_cipher_process, nullptr, x.c, &ib, &n);
            if (st != SA_STATUS_OK || n < 16)
                viol("size-query", "the size query gave %s and %zu for 16 bytes", status_name(st), n);
            st = SA_STATUS_INVALID_PARAMETER;
            break;
    }
    if (st == SA_STATUS_OK)
        viol(strf("bad-call-accepted:%s", kind), "%s: a call with %s was accepted", nm(), kind);
    if (out.get() != before)
        viol(strf("bad-call-wrote:%s", kind), "%s: a refused call (%s) wrote output", nm(), kind);
    cov(std::string("disturbed:") + kind);
}
// Feeds in with random splits and finishes. Encryption: tag_len bytes of tag are asked for; decryption: tag is given.
Run drive(Sess& s, Rng& r, Ctx& x, const Bytes& in, bool enc, const Bytes& tag, size_t tag_len) {
    Run res;
    size_t base = r.coin() ? 0 : r.below(20), obase = r.coin() ? 0 : r.below(20);
    bool inplace = r.chance(25);
    if (inplace)
        obase = base;
    GBuf gi(base + in.size()), go(obase + in.size() + (r.coin() ? 0 : r.below(30)));
    if (!in.empty())
        memcpy(gi.p + base, in.data(), in.size());
    GBuf& out = inplace ? gi : go;
    size_t at = 0, lastmax = g_gcm ? 16 : in.size();
    size_t lastlen = std::min(in.size(), r.chance(30) ? 0 : r.below(lastmax + 1));
    while (at < in.size() - lastlen) {
        if (r.chance(10))
            disturb(s, r, x);
        size_t left = in.size() - lastlen - at;
        size_t n = r.chance(20) ? left : r.chance(60) ? r.range(1, std::min<size_t>(left, 40)) : r.range(0, std::min<size_t>(left, 200));
        sa_buffer ib = clear_buf(gi.p, gi.n, base + at), ob = clear_buf(out.p, out.n, obase + at);
        size_t m = n;
        sa_status st = SA(s, crypto_cipher_process, &ob, x.c, &ib, &m);
        if (st != SA_STATUS_OK)
            viol(strf("process-refused:%s", nm()), "%s: process of %zu bytes at %zu gave %s", nm(), n, at, status_name(st));
        if (m != n || off_of(ib) != base + at + n || off_of(ob) != obase + at + n)
            viol(strf("process-length:%s", nm()), "%s: process of %zu bytes reports %zu, offsets %zu and %zu", nm(), n, m, off_of(ib) - base - at,
                    off_of(ob) - obase - at);
        at += n;
    }
    if (r.chance(15))
        disturb(s, r, x);
    GBuf gt(enc ? Bytes(tag_len, 0xA5) : tag);
    sa_buffer ib = clear_buf(gi.p, gi.n, base + at), ob = clear_buf(out.p, out.n, obase + at);
    size_t m = in.size() - at;
    sa_cipher_end_parameters_aes_gcm pg{gt.p, gt.n};
    sa_cipher_end_parameters_chacha20_poly1305 pc{gt.p, gt.n};
    size_t want = m;
    res.last = SA(s, crypto_cipher_process_last, &ob, x.c, &ib, &m, g_gcm ? (void*) &pg : (void*) &pc);
    res.reached = true;
    trace("%s last %zu of %zu bytes, tag %zu -> %s", nm(), want, in.size(), gt.n, status_name(res.last));
    if (!gt.guards_ok() || !gi.guards_ok() || !out.guards_ok())
        viol(strf("overrun:%s", nm()), "%s: memory next to a buffer was written", nm());
    if (res.last == SA_STATUS_OK) {
        if (m != want || off_of(ib) != base + in.size() || off_of(ob) != obase + in.size())
            viol(strf("last-length:%s", nm()), "%s: the last call of %zu bytes reports %zu, offsets moved by %zu and %zu", nm(), want, m,
                    off_of(ib) - base - at, off_of(ob) - obase - at);
    } else if (!enc && (off_of(ob) != obase + at))
        viol(strf("refused-delivers:%s", nm()), "%s: a refused final call moved the output offset by %zu", nm(), off_of(ob) - obase - at);
    if (!enc && gt.get() != tag)
        viol(strf("tag-changed:%s", nm()), "%s: the caller's tag was written", nm());
    res.out = Bytes(out.p + obase, out.p + obase + in.size());
    res.tag = gt.get();
    return res;
}
void aead(Sess& s, Rng& r) {
    g_gcm = r.coin();
    Tuple t;
    t.key = r.bytes(g_gcm && r.coin() ? 16 : 32);
    t.iv = r.bytes(12);
    t.aad = r.bytes(r.chance(25) ? 0 : r.chance(10) ? r.below(3000) : r.below(70));
    Bytes pt = r.bytes(r.chance(15) ? 0 : r.chance(6) ? r.below(20000) : r.len(300)), tag16;
    Bytes ct = seal(t.key, t.iv, t.aad, pt, &tag16);
    size_t tag_len = g_gcm && r.chance(40) ? r.pick({4, 8, 12, 13, 14, 15}) : 16;
    {   // encryption
        Ctx x{s, must_sym(s, t.key)};
        sa_status st = init_aead(s, r, x, SA_CIPHER_MODE_ENCRYPT, t.iv, t.aad);
        if (st != SA_STATUS_OK)
            viol(strf("init-refused:%s", nm()), "%s: init with %zu bytes of AAD gave %s", nm(), t.aad.size(), status_name(st));
        Run e = drive(s, r, x, pt, true, {}, tag_len);
        if (e.last != SA_STATUS_OK)
            viol(strf("encrypt-refused:%s", nm()), "%s: finishing an encryption with a %zu byte tag gave %s", nm(), tag_len, status_name(e.last));
        if (e.out != ct)
            viol(strf("ciphertext:%s", nm()), "%s: ciphertext of %zu bytes is not the standard one", nm(), pt.size());
        if (e.tag != Bytes(tag16.begin(), tag16.begin() + (long) tag_len))
            viol(strf("tag:%s", nm()), "%s: the tag is %s, expected %s", nm(), hex(e.tag).c_str(), hex(tag16).c_str());
        cov(strf("sealed:%s:%zu", nm(), tag_len));
    }
    t.ct = ct;
    t.tag = Bytes(tag16.begin(), tag16.begin() + (long) tag_len);
    const char* mod = "genuine";
    auto flip = [&](Bytes& b) { b[r.below(b.size())] ^= (uint8_t) (1u << r.below(8)); };
    switch (r.below(15)) {
        case 0: case 1: case 2: break;
        case 3: if (!t.ct.empty()) { flip(t.ct); mod = "ciphertext-bit"; } break;
        case 4: if (!t.ct.empty()) { t.ct[r.coin() ? 0 : t.ct.size() - 1] ^= 0x80; mod = "ciphertext-edge"; } break;
        case 5: if (!t.ct.empty()) { t.ct.resize(t.ct.size() - r.range(1, std::min<size_t>(t.ct.size(), 20))); mod = "ciphertext-cut"; } break;
        case 6: app(t.ct, r.coin() ? r.bytes(r.range(1, 20)) : Bytes(r.range(1, 20))); mod = "ciphertext-longer"; break;
        case 7: if (!t.aad.empty()) { flip(t.aad); mod = "aad-bit"; } break;
        case 8: if (!t.aad.empty()) { t.aad.resize(t.aad.size() - r.range(1, t.aad.size())); mod = "aad-cut"; } break;
        case 9: app(t.aad, Bytes(r.range(1, 20))); mod = "aad-longer"; break;
        case 10: flip(t.iv); mod = "iv"; break;
        case 11: flip(t.tag); mod = "tag-bit"; break;
        case 12: t.tag = r.bytes(t.tag.size()); mod = "tag-random"; break;
        case 13:
            if (g_gcm) t.tag.resize(r.coin() ? 0 : r.range(17, 20)); else t.tag.resize(r.pick({0, 1, 8, 12, 15, 17, 32}));
            mod = "tag-size";
            break;
        default:
            if (!t.tag.empty()) { t.tag.back() ^= (uint8_t) (1 << r.below(8)); mod = "tag-end"; }
            break;
    }
    Bytes mtag, mpt = model(t, &mtag);
    bool good = !t.tag.empty() && t.tag.size() <= 16 && (g_gcm || t.tag.size() == 16) && std::equal(t.tag.begin(), t.tag.end(), mtag.begin());
    Ctx x{s, must_sym(s, t.key)};
    sa_status st = init_aead(s, r, x, SA_CIPHER_MODE_DECRYPT, t.iv, t.aad);
    if (st != SA_STATUS_OK)
        viol(strf("init-refused:%s", nm()), "%s: init with %zu bytes of AAD gave %s", nm(), t.aad.size(), status_name(st));
    Run d = drive(s, r, x, t.ct, false, t.tag, 0);
    if (good) {
        if (d.last != SA_STATUS_OK)
            viol(strf("genuine-refused:%s", nm()), "%s: a genuine message of %zu bytes with a %zu byte tag was refused with %s", nm(), t.ct.size(), t.tag.size(),
                    status_name(d.last));
        if (d.out != mpt)
            viol(strf("plaintext:%s", nm()), "%s: a genuine message of %zu bytes decrypted wrongly", nm(), t.ct.size());
    } else if (d.last == SA_STATUS_OK)
        viol(strf("forgery-accepted:%s:%s", nm(), mod), "%s: a message with a changed %s (%zu bytes, %zu bytes of AAD, tag %zu) was accepted", nm(), mod, t.ct.size(),
                t.aad.size(), t.tag.size());
    cov(strf("%s:%s:%s", good ? "accepted" : "refused", nm(), mod));
    nontrivial(hash_bytes(t.ct.data(), t.ct.size(), hash_bytes(t.tag.data(), t.tag.size(), g_gcm)));
    // a finished stream cannot be finished again with success; a refused one not by trying on with the same tag or a guess
    for (size_t i = 0; i < r.below(4); i++) {
        GBuf gt(i == 0 ? t.tag : i == 1 ? Bytes(tag16) : r.bytes(16)), o(16), in(r.bytes(16));
        if (i == 1 && d.last != SA_STATUS_OK && strstr(mod, "tag"))
            continue;   // the genuine tag for genuine data
        if (t.ct.empty() && t.aad.empty())
            break;
        sa_cipher_end_parameters_aes_gcm pg{gt.p, gt.n};
        sa_cipher_end_parameters_chacha20_poly1305 pc{gt.p, gt.n};
        sa_buffer ib = clear_buf(in.p, in.n), ob = clear_buf(o.p, o.n);
        size_t m = r.coin() ? 0 : 16;
        if (gt.n < 8)
            continue;
        st = SA(s, crypto_cipher_process_last, &ob, x.c, &ib, &m, g_gcm ? (void*) &pg : (void*) &pc);
        if (st == SA_STATUS_OK)
            viol(strf("finished-again:%s", nm()), "%s: a second final call succeeded after the first gave %s", nm(), status_name(d.last));
        cov(strf("finish-again:%s", nm()));
    }
}
void padding(Sess& s, Rng& r) {
    bool cbc = r.coin();
    Bytes key = r.bytes(r.coin() ? 16 : 32), iv = r.bytes(16);
    size_t blocks = r.chance(10) ? r.range(5, 40) : r.below(4);
    Bytes body = r.bytes(16 * blocks), last = r.bytes(16);
    const char* kind;
    switch (r.below(9)) {
        case 0: case 1: {
            uint8_t n = (uint8_t) r.range(1, 16);
            kind = "valid";
            for (size_t i = 16u - n; i < 16; i++) last[i] = n;
            break;
        }
        case 2: {   // one wrong byte anywhere in the padding
            uint8_t n = (uint8_t) r.range(2, 16);
            kind = "one-wrong";
            for (size_t i = 16u - n; i < 16; i++) last[i] = n;
            last[16u - n + r.below(n - 1u)] ^= (uint8_t) r.range(1, 255);
            break;
        }
        case 3: kind = "zero"; last[15] = 0; if (r.coin()) last = Bytes(16); break;
        case 4: {
            kind = "over-16";
            uint8_t n = (uint8_t) r.range(17, r.coin() ? 32 : 255);
            last[15] = n;
            if (r.coin()) last = Bytes(16, n);
            break;
        }
        case 5: {   // ISO 10126 and X9.23: only the count is right
            uint8_t n = (uint8_t) r.range(2, 16);
            kind = "only-count";
            for (size_t i = 16u - n; i < 15; i++) last[i] = r.coin() ? 0 : (uint8_t) r.below(256);
            last[15] = n;
            break;
        }
        case 6: {   // the first byte of the padding wrong
            uint8_t n = (uint8_t) r.range(2, 16);
            kind = "first-wrong";
            for (size_t i = 16u - n; i < 16; i++) last[i] = n;
            last[16u - n] = (uint8_t) (n + r.pick({1, -1, 16, 128}));
            break;
        }
        case 7: kind = "high-bits"; { uint8_t n = (uint8_t) r.range(1, 16); for (size_t i = 16u - n; i < 16; i++) last[i] = n; last[15] |= (uint8_t) (r.pick({0x20, 0x40, 0x80})); } break;
        default: kind = "random"; break;
    }
    bool good = last[15] >= 1 && last[15] <= 16;
    for (size_t i = 16; good && i > 16u - last[15]; i--)
        good = last[i - 1] == last[15];
    Bytes pt = cat({body, last}), ct = cbc ? ref_cbc(key, iv, pt, true) : ref_ecb(key, pt, true);
    Bytes expect(pt.begin(), pt.end() - (good ? last[15] : 0));
    if (r.chance(4)) {
        kind = "nothing";
        good = false;
        ct.clear();
    }
    Ctx x{s, must_sym(s, key)};
    GBuf giv(iv);
    sa_cipher_parameters_aes_cbc p{giv.p, 16};
    sa_status st = SA(s, crypto_cipher_init, &x.c, cbc ? SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 : SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_MODE_DECRYPT, x.k,
            cbc ? &p : nullptr);
    if (st != SA_STATUS_OK)
        viol("init-refused:pkcs7", "init gave %s", status_name(st));
    bool svp = r.chance(25);
    size_t ob0 = r.coin() ? 0 : r.below(20);
    Mem mi(s, svp, ct.size()), mo(s, svp, ob0 + ct.size() + 16 + (r.coin() ? 16 : 0));
    if (!ct.empty())
        memcpy(mi.g.p, ct.data(), ct.size());
    size_t at = 0, made = 0, lastlen = ct.empty() ? 0 : r.coin() ? 16 : 0;
    while (at < ct.size() - lastlen) {
        size_t left = ct.size() - lastlen - at, n = 16 * (r.chance(30) ? left / 16 : r.range(1, std::min<size_t>(left / 16, 4)));
        sa_buffer ib = mi.buf(at), ob = mo.buf(ob0 + made);
        size_t m = n;
        st = SA(s, crypto_cipher_process, &ob, x.c, &ib, &m);
        if (st != SA_STATUS_OK || off_of(ib) != at + n || off_of(ob) != ob0 + made + m || made + m > ct.size())
            viol("process:pkcs7", "process of %zu bytes gave %s, %zu", n, status_name(st), m);
        at += n;
        made += m;
    }
    sa_buffer ib = mi.buf(at), ob = mo.buf(ob0 + made);
    size_t m = lastlen;
    Bytes before = mo.g.get();
    st = SA(s, crypto_cipher_process_last, &ob, x.c, &ib, &m, nullptr);
    trace("pkcs7 %s (%s block) last %zu of %zu: %s %zu", kind, good ? "good" : "bad", lastlen, ct.size(), status_name(st), m);
    if (!mi.g.guards_ok() || !mo.g.guards_ok())
        viol("overrun:pkcs7", "memory next to a buffer was written");
    if (good) {
        if (st != SA_STATUS_OK)
            viol("padding-refused", "valid padding of %u bytes refused with %s (last call %zu of %zu bytes)", last[15], status_name(st), lastlen, ct.size());
        if (made + m != expect.size() || off_of(ob) != ob0 + made + m || off_of(ib) != ct.size() ||
                Bytes(mo.g.p + ob0, mo.g.p + ob0 + made + m) != expect)
            viol("padding-message", "padding of %u bytes: %zu bytes of message returned, expected %zu", last[15], made + m, expect.size());
        cov(strf("padding-valid:%u", last[15]));
    } else {
        if (st == SA_STATUS_OK)
            viol(strf("padding-accepted:%s", kind), "a final block %s (%s) was accepted as %zu bytes", hex(last).c_str(), kind, m);
        if (off_of(ob) != ob0 + made)
            viol("refused-delivers:pkcs7", "a refused final call moved the output offset by %zu", off_of(ob) - ob0 - made);
        if (svp ? false : mo.g.get() != before)
            for (size_t i = 0; i < before.size(); i++)
                if (mo.g.p[i] != before[i] && (i < ob0 + made || i >= ob0 + made + 32))
                    viol("refused-stray:pkcs7", "a refused final call changed byte %zu of the output", i);
        cov(std::string("padding-refused:") + kind);
        for (size_t i = 0; i < r.below(3); i++) {   // trying again does not help
            sa_buffer ib2 = mi.buf(0), ob2 = mo.buf(0);
            m = 0;
            st = SA(s, crypto_cipher_process_last, &ob2, x.c, &ib2, &m, nullptr);
            if (st == SA_STATUS_OK)
                viol("finished-again:pkcs7", "a second final call without data succeeded after a refused one (%s)", kind);
            cov("finish-again:pkcs7");
        }
    }
    nontrivial(hash_bytes(ct.data(), ct.size(), 77));
}
void init() {
    Rng r(9);
    ops_warmup(r);
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    for (size_t i = 0; i < 3; i++)
        r.chance(60) ? aead(s, r) : padding(s, r);
    if (index % 997 == 0)
        sample(strf("seed %" PRIu64 ": one authenticated or padded message", g_case_seed));
}
}   // namespace
Harness harness() {
    return {"Messages sealed and opened by AES-GCM and ChaCha20-Poly1305 with random keys, AAD, tags, splits, in-place use and disturbing refused "
            "calls, with ciphertext, AAD, IV or tag changed in most; PKCS7 final blocks of every kind; the verdict is computed from an OpenSSL model",
            init, one, nullptr};
}
