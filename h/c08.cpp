// C08: streaming ciphers against a whole-message reference, over random splits, offsets, buffer kinds and interleavings.
#include "common.hpp"

namespace {
const sa_cipher_algorithm ALGS[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7,
        SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR,
        SA_CIPHER_ALGORITHM_CHACHA20};
bool is_pkcs7(sa_cipher_algorithm a) { return a == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || a == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7; }
bool is_block(sa_cipher_algorithm a) { return a != SA_CIPHER_ALGORITHM_AES_CTR && a != SA_CIPHER_ALGORITHM_CHACHA20; }

Bytes ref(sa_cipher_algorithm a, bool enc, const Bytes& key, const CParams& p, const Bytes& in) {
    switch (a) {
        case SA_CIPHER_ALGORITHM_AES_ECB:
        case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: return ref_ecb(key, in, enc);
        case SA_CIPHER_ALGORITHM_AES_CBC:
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: return ref_cbc(key, p.iv, in, enc);
        case SA_CIPHER_ALGORITHM_AES_CTR: return ref_ctr(key, p.ctr, in);
        default: return ref_chacha(key, p.ctr, p.nonce, in);
    }
}

struct Stream {
    Sess& s;
    Rng& r;
    sa_cipher_algorithm alg;
    bool enc, insvp, outsvp, inplace;
    Bytes key, in, expect;     // data of the current IV segment; expect includes padding on encryption
    CParams p;
    sa_key k = INVALID_HANDLE;
    sa_crypto_cipher_context c = INVALID_HANDLE;
    std::unique_ptr<Mem> mi, mo;
    size_t ioff = 0, ooff = 0, ibase = 0, obase = 0, fed = 0, made = 0;
    bool done = false, used = false;
    std::string what;

    Stream(Sess& s_, Rng& r_) : s(s_), r(r_) {
        alg = r.pick(ALGS);
        enc = r.coin();
        key = r.bytes(alg == SA_CIPHER_ALGORITHM_CHACHA20 ? 32 : r.coin() ? 16 : 32);
        sa_rights rt = rights_all();
        int kind = (int) r.below(4);   // 0,1: clear to clear, 2: clear to SVP, 3: SVP to SVP
        insvp = kind == 3;
        outsvp = kind >= 2;
        if (outsvp && r.coin())
            SA_USAGE_BIT_CLEAR(rt.usage_flags, SA_USAGE_FLAG_SVP_OPTIONAL);
        k = must_sym(s, key, &rt);
        cparams_rand(p, r, alg);
        inplace = insvp == outsvp && r.chance(30);
        sa_status st = cinit(s, &c, alg, enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k, p);
        what = strf("%s/%s/%zu/%s%s%s", alg_name(alg), enc ? "enc" : "dec", key.size() * 8, insvp ? "svp" : "clear",
                outsvp ? ">svp" : ">clear", inplace ? "/inplace" : "");
        if (st != SA_STATUS_OK)
            viol("init-refused:" + std::string(alg_name(alg)), "%s: init gave %s", what.c_str(), status_name(st));
        segment();
    }
    void segment() {   // a new message under the current parameters
        size_t n = r.chance(4) ? r.range(1000, 20000) : r.len(400);
        Bytes msg;
        if (alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_CBC) {
            n -= n % 16;
            in = r.bytes(n);
            expect = ref(alg, enc, key, p, in);
        } else if (is_pkcs7(alg)) {
            msg = r.bytes(n);
            if (enc) {
                in = msg;
                expect = ref(alg, true, key, p, pkcs7(msg));
            } else {
                in = ref(alg, true, key, p, pkcs7(msg));
                expect = msg;
            }
        } else {
            in = r.bytes(n);
            expect = ref(alg, enc, key, p, in);
        }
        // alignment variants: the data start anywhere in the buffers
        ibase = ioff = r.coin() ? 0 : r.below(40);
        obase = ooff = inplace ? ioff : r.coin() ? 0 : r.below(40);
        size_t slack = is_pkcs7(alg) ? 48 : r.below(20);
        mi.reset();
        mo.reset();
        mi.reset(new Mem(s, insvp, ioff + in.size() + (inplace ? 48 : 0)));
        if (!inplace)
            mo.reset(new Mem(s, outsvp, ooff + in.size() + slack));
        if (!in.empty())
            memcpy(mi->g.p + ioff, in.data(), in.size());
        fed = made = 0;
        done = false;
        trace("%s message %zu bytes at in+%zu out+%zu", what.c_str(), in.size(), ioff, ooff);
    }
    Mem& out() { return inplace ? *mi : *mo; }

    void call(size_t n, bool last) {
        Bytes before = out().g.get();
        Bytes inb = mi->g.get();
        sa_buffer ib = mi->buf(ioff), ob = out().buf(ooff);
        size_t len = n;
        if (r.chance(15)) {   // asking for the size must not disturb the stream
            sa_buffer iq = mi->buf(ioff);
            size_t q = n;
            sa_status st = last ? SA(s, crypto_cipher_process_last, nullptr, c, &iq, &q, nullptr)
                                : SA(s, crypto_cipher_process, nullptr, c, &iq, &q);
            if (st != SA_STATUS_OK || off_of(iq) != ioff)
                viol("size-query:" + std::string(alg_name(alg)), "%s: size query gave %s, input offset %zu", what.c_str(),
                        status_name(st), off_of(iq));
        }
        sa_status st = last ? SA(s, crypto_cipher_process_last, &ob, c, &ib, &len, nullptr)
                            : SA(s, crypto_cipher_process, &ob, c, &ib, &len);
        trace("%s %s(%zu) in@%zu out@%zu -> %s %zu", what.c_str(), last ? "process_last" : "process", n, ioff, ooff,
                status_name(st), len);
        const char* fn = last ? "last" : "process";
        used = true;
        if (st != SA_STATUS_OK)
            viol(strf("refused:%s:%s", alg_name(alg), fn), "%s: valid %s of %zu bytes gave %s", what.c_str(), fn, n, status_name(st));
        if (off_of(ib) != ioff + n)
            viol(strf("in-offset:%s:%s", alg_name(alg), fn), "%s: input offset went from %zu to %zu for %zu bytes", what.c_str(),
                    ioff, off_of(ib), n);
        if (off_of(ob) != ooff + len)
            viol(strf("out-offset:%s:%s", alg_name(alg), fn), "%s: output offset went from %zu to %zu but %zu bytes reported",
                    what.c_str(), ooff, off_of(ob), len);
        fed += n;
        bool held = is_pkcs7(alg) && !enc;
        if (!held && !last && len != n)
            viol(strf("length:%s:%s", alg_name(alg), fn), "%s: %zu bytes in, %zu reported out", what.c_str(), n, len);
        if (made + len > expect.size() && !(held && !last))
            viol(strf("too-much:%s:%s", alg_name(alg), fn), "%s: %zu bytes made, expected %zu in all", what.c_str(), made + len,
                    expect.size());
        Bytes after = out().g.get();
        size_t cmp = std::min(len, expect.size() > made ? expect.size() - made : 0);
        if (cmp && memcmp(after.data() + ooff, expect.data() + made, cmp) != 0) {
            size_t i = 0;
            while (after[ooff + i] == expect[made + i])
                i++;
            viol(strf("data:%s:%s", alg_name(alg), fn), "%s: byte %zu of the message is %02x, expected %02x (call of %zu bytes)",
                    what.c_str(), made + i, after[ooff + i], expect[made + i], n);
        }
        // everything outside the produced range is as it was. Room the caller gave for padding may be used as scratch.
        size_t scratch = ooff + (last && is_pkcs7(alg) ? std::max(len, (n / 16 + 1) * 16) : is_pkcs7(alg) && !enc ? std::max(len, n) : len);
        for (size_t i = 0; i < after.size(); i++)
            if (after[i] != before[i] && !(i >= ooff && i < scratch))
                viol(strf("stray-write:%s:%s", alg_name(alg), fn), "%s: byte %zu of the output buffer changed outside [%zu,%zu)",
                        what.c_str(), i, ooff, ooff + len);
        if (!inplace && mi->g.get() != inb)
            viol(strf("input-changed:%s:%s", alg_name(alg), fn), "%s: the input buffer was modified", what.c_str());
        if (!mi->g.guards_ok() || !out().g.guards_ok())
            viol(strf("overrun:%s:%s", alg_name(alg), fn), "%s: memory next to a buffer was written", what.c_str());
        made += len;
        ioff += n;
        ooff += len;
        if (last || fed == in.size()) {
            if (last || !is_pkcs7(alg)) {
                done = true;
                if (made != expect.size())
                    viol(strf("total:%s:%s", alg_name(alg), fn), "%s: %zu bytes made in all, expected %zu", what.c_str(), made,
                            expect.size());
            }
        }
        cov(strf("%s:%s:%s", fn, alg_name(alg), enc ? "enc" : "dec"));
    }
    void bad_call() {   // refused calls in the middle leave the stream as it was
        size_t left = in.size() - fed;
        Bytes before = out().g.get();
        sa_buffer ib = mi->buf(ioff), ob = out().buf(ooff);
        size_t len;
        sa_status st;
        const char* kind;
        switch (r.below(4)) {
            case 0:
                kind = "output too short";
                len = 32 + left;
                ob = out().buf(out().g.n - r.below(16));
                st = SA(s, crypto_cipher_process, &ob, c, &ib, &len);
                break;
            case 1:
                kind = "input too short";
                len = mi->g.n - ioff + 16;
                st = SA(s, crypto_cipher_process, &ob, c, &ib, &len);
                break;
            case 2:
                if (!is_block(alg))
                    return;
                kind = "not a multiple of the block";
                len = r.range(1, 15);
                if (ioff + len > mi->g.n || ooff + len > out().g.n)
                    return;
                st = SA(s, crypto_cipher_process, &ob, c, &ib, &len);
                break;
            default: {
                kind = "bad IV update";
                Bytes iv = r.bytes(32);
                if (alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 ||
                        alg == SA_CIPHER_ALGORITHM_CHACHA20)
                    st = SA(s, crypto_cipher_update_iv, c, iv.data(), 16);
                else
                    st = SA(s, crypto_cipher_update_iv, c, iv.data(), r.coin() ? r.below(16) : r.range(17, 32));
                break;
            }
        }
        if (st == SA_STATUS_OK)
            viol(strf("bad-call-accepted:%s", kind), "%s: a call with %s was accepted", what.c_str(), kind);
        if (off_of(ib) != ioff || out().g.get() != before)
            viol(strf("bad-call-effect:%s", kind), "%s: a refused call (%s) moved an offset or wrote output", what.c_str(), kind);
        cov(std::string("refused:") + kind);
    }
    bool step() {   // false: finished
        if (done)
            return false;
        size_t left = in.size() - fed;
        if (r.chance(8))
            bad_call();
        if (is_pkcs7(alg)) {
            // process takes whole blocks; process_last takes what is left, at most one block
            if (left <= 16 && (left < 16 || r.chance(70))) {
                call(left, true);
                return true;
            }
            size_t blocks = left / 16;
            size_t n = 16 * (r.chance(20) ? blocks : r.range(r.chance(10) ? 0 : 1, std::min<size_t>(blocks, 6)));
            if (!enc && n == left)   // decryption needs its last block in process_last or an empty last call
                n -= r.coin() ? 16 : 0;
            call(n, false);
            return true;
        }
        if (is_block(alg)) {
            if (left == 0) {
                call(0, false);
                done = true;
                return true;
            }
            call(16 * (r.chance(20) ? left / 16 : r.range(r.chance(10) ? 0 : 1, std::min<size_t>(left / 16, 6))), false);
            return true;
        }
        if (left <= 16 && r.chance(40)) {
            call(left, true);
            return true;
        }
        if (left == 0) {
            call(0, false);
            done = true;
            return true;
        }
        call(r.chance(15) ? left : r.chance(50) ? r.range(1, std::min<size_t>(left, 70)) : r.range(0, std::min<size_t>(left, 17)), false);
        return true;
    }
    bool can_reiv() {
        if (alg == SA_CIPHER_ALGORITHM_AES_CBC || alg == SA_CIPHER_ALGORITHM_AES_CTR)
            return true;
        return alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 && (enc ? !(done) : fed == 0 && !used);
    }
    void reiv() {
        Bytes iv = r.bytes(16);
        GBuf g(iv);
        sa_status st = SA(s, crypto_cipher_update_iv, c, g.p, 16);
        if (st != SA_STATUS_OK)
            viol("update-iv-refused:" + std::string(alg_name(alg)), "%s: a valid IV update gave %s", what.c_str(), status_name(st));
        (alg == SA_CIPHER_ALGORITHM_AES_CTR ? p.ctr : p.iv) = iv;
        trace("%s update_iv", what.c_str());
        cov(strf("update_iv:%s:%s", alg_name(alg), enc ? "enc" : "dec"));
        segment();
    }
    ~Stream() {
        mi.reset();
        mo.reset();
    }
    void finish() {
        sa_status a = SA(s, crypto_cipher_release, c), b = SA(s, key_release, k);
        if (a != SA_STATUS_OK || b != SA_STATUS_OK)
            viol("release-refused", "%s: release gave %s/%s", what.c_str(), status_name(a), status_name(b));
    }
};

void one(Rng& r, uint64_t index) {
    Sess s(index % 3 != 0);
    std::vector<std::unique_ptr<Stream>> st;
    size_t n = r.chance(60) ? 1 : r.range(2, 4);
    uint64_t h = 0;
    for (size_t i = 0; i < n; i++) {
        st.emplace_back(new Stream(s, r));
        h = hash_bytes(st[i]->what.data(), st[i]->what.size(), h + st[i]->in.size() * 31);
    }
    std::vector<size_t> live(n);
    for (size_t i = 0; i < n; i++)
        live[i] = i;
    size_t steps = 0;
    while (!live.empty() && steps++ < 4000) {   // the streams advance in a random order
        size_t j = r.below(live.size());
        Stream& x = *st[live[j]];
        if (x.can_reiv() && r.chance(x.done ? 20 : 4) && steps < 300)
            x.reiv();
        else if (!x.step())
            live.erase(live.begin() + (long) j);
    }
    for (auto& x : st) {
        if (!x->done)
            harness_error("stream did not finish");
        x->finish();
    }
    nontrivial(h ^ mix64(steps, n));
    cov(s.direct ? "sessions:TA" : "sessions:client");
    cov("streams", n);
    cov("calls", steps);
    if (index % 997 == 0)
        sample(strf("seed %" PRIu64 ": %zu interleaved stream(s), first %s, %zu calls", g_case_seed, n, st[0]->what.c_str(), steps));
}
}   // namespace

Harness harness() {
    return {"1-4 cipher streams (random algorithm, mode, key size, message, IV, buffer kinds, offsets, in-place, IV updates) "
            "advanced in random order with random splits, size queries and refused calls in between; distinct by "
            "configuration, message lengths and number of calls",
            nullptr, one, nullptr};
}
