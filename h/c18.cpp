// C18: SVP buffers stay inside the protected region, and every operation on them changes all given ranges or nothing.
#include "ops.hpp"
namespace {
struct Buf { sa_svp_buffer h; size_t at, n; bool revoked; };   // where in the arena
struct Arena {
    Sess& s;
    Rng& r;
    GBuf mem;
    Bytes model;                                   // what every byte of the arena should be
    std::vector<std::pair<size_t, size_t>> reg;    // protected ranges (offset, length), disjoint and not adjacent
    std::vector<Buf> bufs;
    unsigned ok = 0, refused = 0;
    Arena(Sess& s_, Rng& r_, size_t n) : s(s_), r(r_), mem(n) {
        r.fill(mem.p, n);
        model = mem.get();
    }
    ~Arena() {
        void* m;
        size_t n;
        for (auto& b : bufs)
            quietly([&] { SA(s, svp_buffer_release, &m, &n, b.h); });
    }
    void check(const char* op, sa_status st) {
        if (memcmp(mem.p, model.data(), model.size()) != 0) {
            size_t i = 0, last = 0, cnt = 0, first = model.size();
            for (; i < model.size(); i++)
                if (mem.p[i] != model[i]) {
                    if (first == model.size())
                        first = i;
                    last = i;
                    cnt++;
                }
            viol(strf("memory:%s:%s", op, st == SA_STATUS_OK ? "ok" : "refused"),
                    "after %s (%s), %zu bytes of the arena between %zu and %zu differ from what the operation should leave", op,
                    status_name(st), cnt, first, last);
        }
        if (!mem.guards_ok())
            viol(strf("guard:%s", op), "%s wrote outside the arena", op);
        (st == SA_STATUS_OK ? ok : refused)++;
    }
    void expect(const char* op, const char* why, bool want, sa_status st) {
        if ((st == SA_STATUS_OK) != want)
            viol(strf("%s:%s:%s", want ? "refused" : "accepted", op, why), "%s (%s) gave %s", op, why, status_name(st));
        cov(strf("%s:%s:%s", op, want ? "ok" : "refused", why));
    }
    bool inside(size_t at, size_t n) const {   // entirely inside one protected range
        for (auto& g : reg)
            if (at >= g.first && at + n <= g.first + g.second)
                return true;
        return false;
    }
    bool touches(size_t at, size_t n) const {
        for (auto& g : reg)
            if (at < g.first + g.second && g.first < at + n)
                return true;
        return false;
    }
    bool valid(const Buf& b) const { return inside(b.at, b.n); }
};
// a length and two offsets that fit, or one of the ways not to fit
const char* range(Rng& r, size_t out_n, size_t in_n, bool good, sa_svp_offset& o) {
    size_t lim = std::min(out_n, in_n);
    o.length = r.chance(10) ? 0 : r.chance(20) ? lim : r.below(lim + 1);
    o.out_offset = r.chance(30) ? out_n - o.length : r.below(out_n - o.length + 1);
    o.in_offset = r.chance(30) ? in_n - o.length : r.below(in_n - o.length + 1);
    if (good)
        return "fits";
    switch (r.below(7)) {
        case 0:
            o.out_offset = out_n - o.length + r.range(1, 3);
            return "output end";
        case 1:
            o.in_offset = in_n - o.length + r.range(1, 3);
            return "input end";
        case 2:
            o.length = lim + r.range(1, 20);
            o.out_offset = o.in_offset = 0;
            return "length";
        case 3:
            o.length = r.range(1, 16);
            o.out_offset = SIZE_MAX - r.below(o.length);
            return "output overflow";
        case 4:
            o.length = r.range(1, 16);
            o.in_offset = SIZE_MAX - r.below(o.length);
            return "input overflow";
        case 5:
            o.out_offset = std::max<size_t>(o.out_offset, 1);
            o.in_offset = std::max<size_t>(o.in_offset, 1);
            o.length = SIZE_MAX - r.below(std::min(o.out_offset, o.in_offset));
            return "length overflow";
        default:
            o.length = r.coin() ? SIZE_MAX / 2 + 1 + r.below(100) : SIZE_MAX;
            o.out_offset = r.below(3);
            o.in_offset = r.below(3);
            return "huge";
    }
}
// several ranges; if bad, one of them does not fit
const char* ranges(Rng& r, size_t out_n, size_t in_n, bool good, std::vector<sa_svp_offset>& v) {
    size_t k = r.chance(5) ? r.range(9, 40) : r.range(1, 8), bad = good ? k : r.below(k);
    const char* why = "fits";
    for (size_t i = 0; i < k; i++) {
        sa_svp_offset o;
        const char* w = range(r, out_n, in_n, i != bad, o);
        if (i == bad)
            why = w;
        v.push_back(o);
    }
    return why;
}
void op_create(Arena& a) {
    Rng& r = a.r;
    auto& g = a.reg[r.below(a.reg.size())];
    size_t at = g.first, n = g.second;
    const char* why;
    void* p = nullptr;
    bool want = true;
    switch (r.below(10)) {
        default:
            at = g.first + r.below(g.second);
            n = r.range(1, g.first + g.second - at);
            why = "inside";
            break;
        case 4:
            why = "whole region";
            break;
        case 5:
            n = g.second + r.range(1, 4);
            why = "past the end";
            want = false;
            break;
        case 6:
            at = g.first - r.range(1, 4);
            n = r.range(5, g.second);
            why = "before the start";
            want = false;
            break;
        case 7: {
            std::vector<size_t> out;
            for (size_t i = 0; i < a.mem.n; i++)
                if (!a.touches(i, 1))
                    out.push_back(i);
            at = r.pick(out);
            n = r.range(1, 8);
            if (a.touches(at, n))
                n = 1;
            why = "outside";
            want = false;
            break;
        }
        case 8:
            at = g.first + r.below(g.second);
            n = r.pick({SIZE_MAX, SIZE_MAX - 1, (size_t) 0 - at, (size_t) 0 - (size_t) (a.mem.p + at), (size_t) 1 << 63});
            why = "huge";
            want = false;
            break;
        case 9:
            why = "null";
            want = false;
            n = r.range(1, 16);
            break;
    }
    if (strcmp(why, "null") != 0)
        p = a.mem.p + at;
    sa_svp_buffer h = INVALID_HANDLE;
    sa_status st = SA(a.s, svp_buffer_create, &h, p, n);
    trace("create at %zu of %zu (%s) -> %s", at, n, why, status_name(st));
    a.check("create", st);
    a.expect("create", why, want, st);
    if (st == SA_STATUS_OK)
        a.bufs.push_back({h, at, n, false});
}
void op_write(Arena& a) {
    Rng& r = a.r;
    const Buf& b = r.pick(a.bufs);
    size_t n = r.range(1, 2 * b.n + 10);
    Bytes src = r.bytes(n);
    GBuf in(src);
    bool good = !r.chance(35);
    std::vector<sa_svp_offset> v;
    const char* why = ranges(r, b.n, n, good, v);
    if (!a.valid(b)) {
        good = false;
        why = "memory no longer protected";
    }
    sa_status st = SA(a.s, svp_buffer_write, b.h, in.p, n, v.data(), v.size());
    trace("write %zu ranges (%s) into %zu+%zu -> %s", v.size(), why, b.at, b.n, status_name(st));
    if (good && st == SA_STATUS_OK)
        for (auto& o : v)
            if (o.length)
                memcpy(&a.model[b.at + o.out_offset], &src[o.in_offset], o.length);
    a.expect("write", why, good, st);
    a.check("write", st);
    if (in.get() != src || !in.guards_ok())
        viol("write-input", "writing to an SVP buffer changed the input");
}
void op_copy(Arena& a) {
    Rng& r = a.r;
    const Buf &b = r.pick(a.bufs), &c = r.pick(a.bufs);
    bool good = !r.chance(35);
    std::vector<sa_svp_offset> v;
    const char* why = ranges(r, b.n, c.n, good, v);
    if (!a.valid(b) || !a.valid(c)) {
        good = false;
        why = "memory no longer protected";
    }
    sa_status st = SA(a.s, svp_buffer_copy, b.h, c.h, v.data(), v.size());
    trace("copy %zu ranges (%s) from %zu+%zu to %zu+%zu -> %s", v.size(), why, c.at, c.n, b.at, b.n, status_name(st));
    if (good && st == SA_STATUS_OK)
        for (auto& o : v)
            if (o.length)
                memmove(&a.model[b.at + o.out_offset], &a.model[c.at + o.in_offset], o.length);
    a.expect("copy", b.h == c.h && good ? "same buffer" : why, good, st);
    a.check("copy", st);
}
void op_cipher(Arena& a) {
    Rng& r = a.r;
    Sess& s = a.s;
    Bytes key = r.bytes(r.coin() ? 16 : 32);
    sa_rights rt = rights_all();
    bool insvp = r.coin(), outsvp = insvp || r.chance(80);
    bool need_clear = !outsvp;   // clear output needs it, clear input does not
    if (!need_clear && r.coin())
        SA_USAGE_BIT_CLEAR(rt.usage_flags, SA_USAGE_FLAG_SVP_OPTIONAL);
    sa_key k = must_sym(s, key, &rt);
    sa_crypto_cipher_context c = INVALID_HANDLE;
    Finally fin{[&] {
        if (c != INVALID_HANDLE)
            SA(s, crypto_cipher_release, c);
        SA(s, key_release, k);
    }};
    auto alg = r.pick({SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_CHACHA20});
    if (alg == SA_CIPHER_ALGORITHM_CHACHA20 && key.size() != 32)
        alg = SA_CIPHER_ALGORITHM_AES_CTR;
    bool enc = r.coin();
    CParams p;
    cparams_rand(p, r, alg);
    sa_status st = cinit(s, &c, alg, enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k, p);
    if (st != SA_STATUS_OK)
        viol("cipher-init", "cipher init gave %s", status_name(st));
    const Buf &b = r.pick(a.bufs), &d = r.pick(a.bufs);
    bool block = alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_CBC;
    size_t outn = outsvp ? b.n : r.range(16, 100), inn = insvp ? d.n : r.range(16, 100);
    size_t lim = std::min(outn, inn);
    size_t n = block ? r.below(lim / 16 + 1) * 16 : r.below(lim + 1);
    if (n == 0)
        n = block ? 16 : 1;
    size_t io = 0, oo = 0;
    bool good = n <= lim;
    const char* why = good ? insvp ? "from svp" : "from clear" : "too small";
    if (good) {
        oo = r.below(outn - n + 1);
        io = r.below(inn - n + 1);
        if (r.chance(40)) {
            good = false;
            switch (r.below(4)) {
                case 0:
                    oo = outn - n + r.range(1, 3);
                    why = "output end";
                    break;
                case 1:
                    io = inn - n + r.range(1, 3);
                    why = "input end";
                    break;
                case 2:
                    oo = SIZE_MAX - r.below(n);
                    why = "output overflow";
                    break;
                default:
                    io = SIZE_MAX - r.below(n);
                    why = "input overflow";
                    break;
            }
        }
    }
    if ((outsvp && !a.valid(b)) || (insvp && !a.valid(d))) {
        good = false;
        why = "memory no longer protected";
    }
    // clear buffers: of our own, or (direct calls) one that touches the protected region
    Bytes src = insvp ? Bytes() : r.bytes(inn);
    GBuf ci(src), co(outsvp ? 0 : outn);
    sa_buffer ib = insvp ? svp_buf(d.h, io) : clear_buf(ci.p, inn, io), ob = outsvp ? svp_buf(b.h, oo) : clear_buf(co.p, outn, oo);
    if (s.direct && (!insvp || !outsvp) && good && r.chance(30)) {   // the clear buffer lies over protected memory
        auto& g = r.pick(a.reg);
        bool in = !insvp && (outsvp || r.coin());
        size_t want = in ? inn : outn, at = g.first + g.second - r.range(1, std::min(g.second, want));
        if (r.chance(30))
            at = g.first > want - 1 ? g.first - (want - 1) : 0;
        if (at + want > a.mem.n)
            at = a.mem.n - want;
        if (a.touches(at, want)) {
            (in ? ib : ob) = clear_buf(a.mem.p + at, want, in ? io : oo);
            good = false;
            why = in ? "clear input over protected memory" : "clear output over protected memory";
        }
    }
    bool overlap = insvp && outsvp && good && d.at + io < b.at + oo + n && b.at + oo < d.at + io + n;
    bool same = overlap && d.at + io == b.at + oo;
    Bytes in = good ? insvp ? Bytes(a.model.begin() + d.at + io, a.model.begin() + d.at + io + n) : Bytes(src.begin() + io, src.begin() + io + n) : Bytes();
    size_t m = n;
    st = SA(s, crypto_cipher_process, &ob, c, &ib, &m);
    trace("cipher %s %s %zu bytes (%s%s) -> %s", alg_name(alg), enc ? "enc" : "dec", n, why, overlap ? " overlapping" : "", status_name(st));
    if (insvp && !outsvp) {
        a.expect("cipher", "svp to clear", false, st);
        a.check("cipher-to-clear", st);
        return;
    }
    if (overlap && !same) {   // what partially overlapping buffers give is not defined, where it goes is
        if (st == SA_STATUS_OK)
            memcpy(&a.model[b.at + oo], a.mem.p + b.at + oo, n);
        cov(st == SA_STATUS_OK ? "cipher:overlap-accepted" : "cipher:overlap-refused");
        a.check("cipher-overlap", st);
        return;
    }
    if (same && st != SA_STATUS_OK) {
        cov("cipher:inplace-refused");
        a.check("cipher-inplace", st);
        return;
    }
    if (good && st == SA_STATUS_OK) {
        Bytes w;
        switch (alg) {
            case SA_CIPHER_ALGORITHM_AES_ECB: w = ref_ecb(key, in, enc); break;
            case SA_CIPHER_ALGORITHM_AES_CBC: w = ref_cbc(key, p.iv, in, enc); break;
            case SA_CIPHER_ALGORITHM_AES_CTR: w = ref_ctr(key, p.ctr, in); break;
            default: w = ref_chacha(key, p.ctr, p.nonce, in); break;
        }
        if (outsvp)
            memcpy(&a.model[b.at + oo], w.data(), n);
        else if (co.get(oo, n) != w)
            viol("cipher-clear-output", "clear output of %s is not the standard result", alg_name(alg));
        if (m != n || off_of(ib) != io + n || off_of(ob) != oo + n)
            viol("cipher-offsets", "%zu bytes processed, reported %zu, offsets moved by %zu and %zu", n, m, off_of(ib) - io, off_of(ob) - oo);
    }
    a.expect("cipher", why, good, st);
    a.check("cipher", st);
    if (ci.get() != src || !ci.guards_ok() || !co.guards_ok())
        viol("cipher-clear-memory", "clear memory beside the output changed");
    if (!good && !outsvp && co.get() != Bytes(outn, 0xA5))
        viol("cipher-clear-written", "a refused call (%s) wrote clear output", why);
}
void op_buffer_check(Arena& a) {
    Rng& r = a.r;
    const Buf& b = r.pick(a.bufs);
    auto alg = r.pick(DIGESTS);
    size_t len = r.chance(15) ? b.n : r.below(b.n + 1), off = r.chance(20) ? b.n - len : r.below(b.n - len + 1);
    Bytes data(a.model.begin() + b.at + off, a.model.begin() + b.at + off + len), dg = ref_digest(alg, data);
    bool good = true;
    const char* why = "equal";
    switch (r.below(10)) {
        default:
            break;
        case 4: case 5:
            dg[r.chance(30) ? dg.size() - 1 : r.chance(30) ? 0 : r.below(dg.size())] ^= 1u << r.below(8);
            good = false;
            why = "different digest";
            break;
        case 6:
            if (r.coin())
                dg.pop_back();
            else
                dg.push_back(0);
            good = false;
            why = "digest length";
            break;
        case 7:
            off = b.n - len + r.range(1, 3);
            good = false;
            why = "range";
            break;
        case 8:
            len = r.range(1, 64);
            off = SIZE_MAX - r.below(len);
            good = false;
            why = "overflow";
            break;
        case 9:
            alg = (sa_digest_algorithm) r.pick({99, -1, 4, 7});
            dg = r.bytes(r.pick({0, 20, 32, 64}));
            good = false;
            why = "no such digest";
            break;
    }
    if (!a.valid(b)) {
        good = false;
        why = "memory no longer protected";
    }
    bool ta = a.s.direct && a.s.uuid != UUID_REE;
    GBuf h(dg);
    size_t n = strcmp(why, "no such digest") == 0 && r.chance(30) ? SIZE_MAX : dg.size();
    if (!a.s.direct && n == SIZE_MAX)
        n = dg.size();   // the client library would copy that much
    sa_status st = SA(a.s, svp_buffer_check, b.h, off, len, alg, h.p, n);
    trace("buffer check (%s) -> %s", why, status_name(st));
    if (!ta)
        a.expect("buffer-check", "from the REE", false, st);
    else
        a.expect("buffer-check", why, good, st);
    a.check("buffer-check", st);
}
void op_key_check(Arena& a) {
    Rng& r = a.r;
    Sess& s = a.s;
    const Buf& b = r.pick(a.bufs);
    bool ta = s.direct && s.uuid != UUID_REE, svp = r.coin();
    Bytes key = r.bytes(r.coin() ? 16 : 32);
    sa_rights rt = rights_all();
    bool good = true;
    const char* why = "equal";
    size_t inn = svp ? b.n : r.range(16, 80), n = r.range(1, 3) * 16;
    if (n > inn)
        n = 16;
    if (n > inn) {
        good = false;
        why = "too small";
    }
    size_t off = good ? r.below(inn - n + 1) : 0;
    Bytes src = r.bytes(svp ? 0 : inn);
    GBuf ci(src);
    Bytes dec;
    if (good)
        dec = ref_ecb(key, svp ? Bytes(a.model.begin() + b.at + off, a.model.begin() + b.at + off + n) : Bytes(src.begin() + off, src.begin() + off + n), false);
    else
        dec = r.bytes(n);
    size_t en = n;
    if (svp && !ta) {
        good = false;
        why = "SVP from the REE";
    } else if (good)
        switch (r.below(12)) {
            default:
                if (svp && r.coin()) {
                    SA_USAGE_BIT_CLEAR(rt.usage_flags, SA_USAGE_FLAG_SVP_OPTIONAL);
                    why = "equal, key needs SVP";
                }
                break;
            case 5: case 6:
                dec[r.chance(30) ? dec.size() - 1 : r.below(dec.size())] ^= 1u << r.below(8);
                good = false;
                why = "different";
                break;
            case 7:
                off = inn - n + r.range(1, 3);
                good = false;
                why = "range";
                break;
            case 8:
                off = SIZE_MAX - r.below(n);
                good = false;
                why = "overflow";
                break;
            case 9:
                en = n + (r.coin() ? 16 : -1);
                dec.resize(en);
                good = false;
                why = "expected length";
                break;
            case 10:
                SA_USAGE_BIT_CLEAR(rt.usage_flags, SA_USAGE_FLAG_DECRYPT);
                good = false;
                why = "no decrypt right";
                break;
            case 11:
                if (!svp) {
                    SA_USAGE_BIT_CLEAR(rt.usage_flags, SA_USAGE_FLAG_SVP_OPTIONAL);
                    good = false;
                    why = "clear data, key needs SVP";
                } else {
                    key = r.bytes(24);
                    good = false;
                    why = "not an AES key";
                }
                break;
        }
    if (svp && !a.valid(b)) {
        good = false;
        why = "memory no longer protected";
    }
    sa_key k = must_sym(s, key, &rt);
    Finally fin{[&] { SA(s, key_release, k); }};
    GBuf ge(dec);
    sa_buffer ib = svp ? svp_buf(b.h, off) : clear_buf(ci.p, inn, off);
    sa_status st = SA(s, svp_key_check, k, &ib, n, ge.p, en);
    trace("key check (%s, %s) -> %s", svp ? "svp" : "clear", why, status_name(st));
    a.expect("key-check", why, good, st);
    a.check("key-check", st);
    if (ci.get() != src || ge.get() != dec)
        viol("key-check-input", "key check changed what it was given");
}
void op_release(Arena& a) {
    size_t i = a.r.below(a.bufs.size());
    Buf b = a.bufs[i];
    void* m = nullptr;
    size_t n = 0;
    sa_status st = SA(a.s, svp_buffer_release, &m, &n, b.h);
    a.bufs.erase(a.bufs.begin() + i);
    if (st != SA_STATUS_OK || m != a.mem.p + b.at || n != b.n)
        viol("release", "releasing a buffer of %zu at %zu gave %s, size %zu, %s address", b.n, b.at, status_name(st), n,
                m == a.mem.p + b.at ? "right" : "wrong");
    a.check("release", st);
    cov("release");
}
void op_args(Arena& a) {   // missing arguments and dead handles
    Rng& r = a.r;
    const Buf& b = r.pick(a.bufs);
    uint8_t in[16] = {};
    sa_svp_offset o{0, 0, 1};
    void* m = nullptr;
    size_t n = 0;
    sa_svp_buffer dead = r.pick({(sa_svp_buffer) INVALID_HANDLE, (sa_svp_buffer) 100000, (sa_svp_buffer) ~b.h});
    sa_status st;
    const char* why;
    switch (r.below(8)) {
        case 0: why = "write, null input"; st = SA(a.s, svp_buffer_write, b.h, nullptr, 16, &o, 1); break;
        case 1: why = "write, null offsets"; st = SA(a.s, svp_buffer_write, b.h, in, 16, nullptr, 1); break;
        case 2: why = "write, dead"; st = SA(a.s, svp_buffer_write, dead, in, 16, &o, 1); break;
        case 3: why = "copy to dead"; st = SA(a.s, svp_buffer_copy, dead, b.h, &o, 1); break;
        case 4: why = "copy from dead"; st = SA(a.s, svp_buffer_copy, b.h, dead, &o, 1); break;
        case 5: why = "copy, null offsets"; st = SA(a.s, svp_buffer_copy, b.h, b.h, nullptr, 1); break;
        case 6: why = "release dead"; st = SA(a.s, svp_buffer_release, &m, &n, dead); break;
        default: why = "release, nowhere"; st = SA(a.s, svp_buffer_release, r.coin() ? nullptr : &m, nullptr, b.h); break;
    }
    a.expect("arguments", why, false, st);
    a.check("arguments", st);
}
// the platform refuses to give the buffer back: an error, and nothing is lost or locked
void op_release_fail(Arena& a) {
    const Buf& b = a.r.pick(a.bufs);
    void* m = nullptr;
    size_t n = 0;
    w_svp_release_fail = 1;
    sa_status st = SA(a.s, svp_buffer_release, &m, &n, b.h);
    w_svp_release_fail = 0;
    a.expect("release", "refused by the platform", false, st);
    a.check("release-refused", st);
}
// client library only: allocation and free
void op_alloc(Arena& a) {
    if (a.s.direct)
        return;
    Rng& r = a.r;
    size_t before = heap_bytes();
    sa_svp_buffer h = INVALID_HANDLE;
    size_t n = r.range(1, 3000);
    sa_status st = sa_svp_buffer_alloc(&h, n);
    size_t after = heap_bytes();
    if (after != before)
        viol("alloc-leak", "a refused allocation of an SVP buffer of %zu bytes leaves %zd bytes allocated", n, (ssize_t) (after - before));
    a.expect("alloc", "not protected memory", false, after_call("svp_buffer_alloc", st));
    w_regions_on = false;
    Finally on{[] { w_regions_on = true; }};
    Bytes d = r.bytes(n + 1);
    before = heap_bytes();
    st = after_call("svp_buffer_alloc", sa_svp_buffer_alloc(&h, n));
    if (st != SA_STATUS_OK)
        viol("alloc-refused", "allocating %zu bytes of SVP memory gave %s", n, status_name(st));
    sa_svp_offset o{0, 0, n};
    st = SA(a.s, svp_buffer_write, h, d.data(), n, &o, 1);
    if (st != SA_STATUS_OK)
        viol("alloc-write", "writing all of an allocated buffer of %zu bytes gave %s", n, status_name(st));
    o.length = n + 1;
    st = SA(a.s, svp_buffer_write, h, d.data(), n + 1, &o, 1);
    if (st == SA_STATUS_OK)
        viol("alloc-overwrite", "writing %zu bytes into an allocated buffer of %zu was accepted", n + 1, n);
    if (r.coin()) {
        st = after_call("svp_buffer_free", sa_svp_buffer_free(h));
        if (st != SA_STATUS_OK)
            viol("free-refused", "freeing an SVP buffer gave %s", status_name(st));
    } else {
        void* m = nullptr;
        size_t k = 0;
        st = SA(a.s, svp_buffer_release, &m, &k, h);
        if (st != SA_STATUS_OK || k != n || memcmp(m, d.data(), n) != 0)
            viol("alloc-release", "releasing an allocated buffer gave %s, %zu bytes for %zu, or other content", status_name(st), k, n);
        st = after_call("svp_memory_free", sa_svp_memory_free(m));
        if (st != SA_STATUS_OK)
            viol("free-refused", "freeing SVP memory gave %s", status_name(st));
    }
    if (heap_bytes() != before)
        viol("free-leak", "allocating and freeing an SVP buffer leaves %zd bytes", (ssize_t) (heap_bytes() - before));
    cov("alloc-free");
}
void one(Rng& r, uint64_t index) {
    unsigned who = index % 4;   // 0: the client library, 1: direct as REE, 2, 3: direct as a TA
    Sess s(who != 0, who >= 2 ? mk_uuid(7) : UUID_REE);
    Arena a(s, r, r.range(120, 1200));
    size_t nreg = r.range(1, 3), each = a.mem.n / nreg;
    for (size_t i = 0; i < nreg; i++) {
        size_t lo = i * each + r.range(4, 10), hi = (i + 1) * each - r.range(4, 10);
        if (hi - lo > 24 || a.reg.empty()) {
            if (r.coin())
                lo += r.below((hi - lo) / 3);
            a.reg.push_back({lo, hi - lo});
        }
    }
    HCHECK(!a.reg.empty());
    Finally off{[] {
        w_regions_on = false;
        w_reset();
    }};
    for (auto& g : a.reg)
        w_region_add(a.mem.p + g.first, g.second);
    w_regions_on = true;
    size_t steps = r.range(8, 30);
    uint64_t h = 1;
    bool removed = false;
    for (size_t i = 0; i < steps; i++) {
        unsigned k = r.below(100);
        if (a.bufs.empty() || k < 12)
            op_create(a);
        else if (k < 30)
            op_write(a);
        else if (k < 50)
            op_copy(a);
        else if (k < 68)
            op_cipher(a);
        else if (k < 78)
            op_buffer_check(a);
        else if (k < 86)
            op_key_check(a);
        else if (k < 90)
            op_release(a);
        else if (k < 94)
            op_args(a);
        else if (k < 96)
            op_release_fail(a);
        else if (k < 98)
            op_alloc(a);
        else if (!removed && a.reg.size() > 1 && r.chance(40)) {   // the platform takes a region away
            removed = true;
            size_t j = r.below(a.reg.size());
            w_region_del(a.mem.p + a.reg[j].first);
            a.reg.erase(a.reg.begin() + j);
            trace("region removed");
            cov("region-removed");
        }
        h = mix64(h, k * 1000 + a.bufs.size());
    }
    while (!a.bufs.empty())
        op_release(a);
    if (a.ok >= 3 && a.refused >= 1)
        nontrivial(h);
}
}
Harness harness() {
    return {"each case simulates 1 to 3 protected regions in a guarded arena and runs 8 to 30 SVP operations (create, write, copy, "
            "cipher, buffer check, key check, release, platform refusals, invalid arguments) against a byte-exact model of the whole "
            "arena; non-trivial: at least 3 accepted operations and one refused", [] { Rng r(1); ops_warmup(r); }, one, nullptr};
}
