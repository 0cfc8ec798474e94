// C17: common encryption samples decrypt as ISO/IEC 23001-7 defines; malformed ones are refused.
#include "ops.hpp"
namespace {
struct Ctx { sa_key k; sa_crypto_cipher_context c; Bytes key; bool ctr; };
enum Scheme { CENC, CENS, CBC1, CBCS };
const char* NAMES[] = {"cenc", "cens", "cbc1", "cbcs"};
// block counter j of the CTR key stream from iv: only the low 8 bytes count
Bytes counter_at(const Bytes& iv, uint64_t j) {
    Bytes c = iv;
    uint64_t v = 0;
    for (int i = 8; i < 16; i++) v = v << 8 | c[(size_t) i];
    v += j;
    for (int i = 15; i >= 8; i--) { c[(size_t) i] = (uint8_t) v; v >>= 8; }
    return c;
}
// What a player must get from in. Byte by byte from the definition.
Bytes model(Scheme sc, const Bytes& key, const Bytes& iv, size_t crypt, size_t skip, const std::vector<sa_subsample_length>& subs, const Bytes& in) {
    Bytes out = in;
    std::vector<size_t> pos;   // sample positions of the encrypted bytes, in order
    std::vector<size_t> starts;   // CBCS: where in pos each subsample starts
    size_t at = 0;
    for (auto& s : subs) {
        at += s.bytes_of_clear_data;
        starts.push_back(pos.size());
        size_t n = s.bytes_of_protected_data;
        if (sc == CENC) {
            for (size_t i = 0; i < n; i++) pos.push_back(at + i);
        } else {
            for (size_t b = 0; b < n / 16; b++) {
                bool enc = sc == CBC1 || skip == 0 || (crypt + skip < crypt ? b : b % (crypt + skip)) < crypt;
                for (size_t i = 0; enc && i < 16; i++) pos.push_back(at + 16 * b + i);
            }
        }
        at += n;
    }
    starts.push_back(pos.size());
    if (sc == CENC || sc == CENS) {
        Bytes ctrs;
        for (size_t j = 0; j * 16 < pos.size(); j++)
            app(ctrs, counter_at(iv, j));
        Bytes ks = ref_ecb(key, ctrs, true);
        for (size_t i = 0; i < pos.size(); i++)
            out[pos[i]] = in[pos[i]] ^ ks[i];
    } else {
        Bytes enc(pos.size());
        for (size_t i = 0; i < pos.size(); i++) enc[i] = in[pos[i]];
        Bytes dec = ref_ecb(key, enc, false);
        size_t sub = 0;
        for (size_t b = 0; b * 16 < pos.size(); b++) {
            while (sub + 1 < starts.size() && starts[sub + 1] <= b * 16) sub++;
            bool first = b == 0 || (sc == CBCS && starts[sub] == b * 16);
            for (size_t i = 0; i < 16; i++)
                out[pos[b * 16 + i]] = dec[b * 16 + i] ^ (first ? iv[i] : enc[(b - 1) * 16 + i]);
        }
    }
    return out;
}
struct Smp {
    Scheme sc;
    Bytes iv, in, expect;
    size_t crypt = 0, skip = 0, ioff, ooff;
    std::vector<sa_subsample_length> subs;
    std::unique_ptr<Mem> mi, mo;
    std::unique_ptr<GBuf> giv;
    sa_buffer ib, ob;
    Bytes before;
    size_t total = 0;
    sa_sample s{};
};
void init() {
    Rng r(17);
    ops_warmup(r);
}
size_t prot_len(Rng& r) {
    switch (r.below(8)) {
        case 0: return 0;
        case 1: return r.range(1, 15);
        case 2: return 16;
        case 3: return 16 * r.range(1, 12);
        case 4: return r.range(1, 40);
        case 5: return r.below(600);
        case 6: return 16 * r.range(1, 4) + r.range(1, 15);
        default: return r.chance(5) ? r.below(30000) : r.range(16, 200);
    }
}
void make(Sess& s, Rng& r, Smp& x, const Ctx& c) {
    x.sc = c.ctr ? (r.chance(60) ? CENC : CENS) : (r.coin() ? CBC1 : CBCS);
    if (x.sc == CENS || x.sc == CBCS) {
        switch (r.below(6)) {
            case 0: x.crypt = 1; x.skip = 9; break;
            case 1: x.crypt = 5; x.skip = 5; break;
            case 2: x.crypt = 10; x.skip = 0; break;
            case 3: x.crypt = r.range(1, 4); x.skip = r.below(4); break;
            case 4: x.crypt = r.range(1, 20); x.skip = r.below(20); break;
            default: x.crypt = r.coin() ? 100000 : r.pick({1, 2}); x.skip = r.coin() ? 0 : 100000; break;
        }
        if (r.chance(2)) {   // the pattern is the caller's: any number of blocks
            size_t huge = r.pick({(size_t) 1 << 60, ((size_t) 1 << 60) + 1, SIZE_MAX, (size_t) 1 << 63, SIZE_MAX / 16, (size_t) 1 << 32});
            if (r.coin()) x.crypt = huge; else x.skip = huge;
            cov("pattern:huge");
        }
    }
    x.iv = r.bytes(16);
    if (r.chance(50)) {   // counters close to rolling over, at it, and large
        uint64_t v = r.chance(70) ? 0 - r.below(8) : r.chance(50) ? 0 - r.below(60) : 0 - r.below(1ull << 60);
        for (int i = 15; i >= 8; i--) { x.iv[(size_t) i] = (uint8_t) v; v >>= 8; }
        if (r.chance(30))
            for (size_t i = 0; i < 8; i++) x.iv[i] = 0xff;
    }
    size_t n = r.chance(30) ? 1 : r.chance(90) ? r.range(2, 5) : r.range(6, 30);
    for (size_t i = 0; i < n; i++) {
        x.subs.push_back({r.chance(30) ? 0 : r.below(40), prot_len(r)});
        x.total += x.subs.back().bytes_of_clear_data + x.subs.back().bytes_of_protected_data;
    }
    if (x.total == 0) {
        x.subs[0].bytes_of_protected_data = x.total = 16;
    }
    x.in = r.bytes(x.total);
    x.expect = model(x.sc, c.key, x.iv, x.crypt, x.skip, x.subs, x.in);
    int kind = (int) r.below(4);
    x.ioff = r.coin() ? 0 : r.below(40);
    x.ooff = r.coin() ? 0 : r.below(40);
    x.mi.reset(new Mem(s, kind == 3, x.ioff + x.total + (r.coin() ? 0 : r.below(20))));
    x.mo.reset(new Mem(s, kind >= 2, x.ooff + x.total + (r.coin() ? 0 : r.below(20))));
    memcpy(x.mi->g.p + x.ioff, x.in.data(), x.total);
    x.giv.reset(new GBuf(x.iv));
    x.ib = x.mi->buf(x.ioff);
    x.ob = x.mo->buf(x.ooff);
    x.before = x.mo->g.get();
    x.s = {x.giv->p, 16, x.crypt, x.skip, x.subs.size(), x.subs.data(), c.c, &x.ob, &x.ib};
    cov(strf("buffers:%s>%s", kind == 3 ? "svp" : "clear", kind >= 2 ? "svp" : "clear"));
}
void outside(Smp& x, const char* when) {
    if (!x.mi->g.guards_ok() || !x.mo->g.guards_ok())
        viol(strf("overrun:%s", NAMES[x.sc]), "%s: %s wrote next to a buffer", NAMES[x.sc], when);
    for (size_t i = 0; i < x.before.size(); i++)
        if ((i < x.ooff || i >= x.ooff + x.total) && x.mo->g.p[i] != x.before[i])
            viol(strf("stray-write:%s", NAMES[x.sc]), "%s: %s changed byte %zu of the output buffer, outside the sample's range", NAMES[x.sc], when, i);
    if (Bytes(x.mi->g.p + x.ioff, x.mi->g.p + x.ioff + x.total) != x.in)
        viol(strf("input-changed:%s", NAMES[x.sc]), "%s: %s changed the input", NAMES[x.sc], when);
}
std::string describe(const Smp& x) {
    std::string d = strf("%s %zu:%zu iv ..%s", NAMES[x.sc], x.crypt, x.skip, hex(Bytes(x.iv.begin() + 8, x.iv.end())).c_str());
    for (size_t i = 0; i < x.subs.size() && i < 8; i++)
        d += strf(" %zu+%zu", x.subs[i].bytes_of_clear_data, x.subs[i].bytes_of_protected_data);
    return d;
}
void good(Sess& s, Rng& r, std::vector<Ctx>& cs) {
    std::vector<Smp> v(r.chance(60) ? 1 : r.range(2, 4));
    std::vector<sa_sample> arr;
    for (auto& x : v) {
        make(s, r, x, cs[r.below(cs.size())]);
        arr.push_back(x.s);
        trace("%s", describe(x).c_str());
    }
    sa_status st = SA(s, process_common_encryption, arr.size(), arr.data());
    for (auto& x : v) {
        outside(x, "a valid call");
        if (st != SA_STATUS_OK)
            viol(strf("refused:%s", NAMES[x.sc]), "a valid call of %zu samples was refused with %s; first %s", v.size(), status_name(st), describe(v[0]).c_str());
        Bytes got(x.mo->g.p + x.ooff, x.mo->g.p + x.ooff + x.total);
        if (got != x.expect) {
            size_t i = 0, sub = 0, at = 0;
            while (got[i] == x.expect[i]) i++;
            while (at + x.subs[sub].bytes_of_clear_data + x.subs[sub].bytes_of_protected_data <= i) {
                at += x.subs[sub].bytes_of_clear_data + x.subs[sub].bytes_of_protected_data;
                sub++;
            }
            viol(strf("data:%s:%s", NAMES[x.sc], i - at < x.subs[sub].bytes_of_clear_data ? "clear" : "protected"),
                    "%s: byte %zu (byte %zu of subsample %zu) is %02x, expected %02x", describe(x).c_str(), i, i - at, sub, got[i], x.expect[i]);
        }
        if (off_of(x.ib) != x.ioff + x.total || off_of(x.ob) != x.ooff + x.total)
            viol(strf("offsets:%s", NAMES[x.sc]), "%s: offsets moved by %zu and %zu for %zu bytes", describe(x).c_str(), off_of(x.ib) - x.ioff,
                    off_of(x.ob) - x.ooff, x.total);
        cov(strf("decrypted:%s", NAMES[x.sc]));
        if (x.crypt && x.skip) cov("pattern:skipping");
        if (x.sc == CENC || x.sc == CENS) {
            uint64_t c = 0;
            for (size_t i = 8; i < 16; i++) c = c << 8 | x.iv[i];
            if (c + x.total / 16 < c) cov(strf("rollover:%s", NAMES[x.sc]));
        }
        size_t part = 0;
        for (auto& y : x.subs) {
            if (x.sc == CENC && part % 16 && y.bytes_of_protected_data)
                cov(y.bytes_of_protected_data < 16 - part % 16 ? "carried:short" : "carried");
            part += y.bytes_of_protected_data;
        }
        nontrivial(hash_bytes(x.in.data(), x.in.size(), x.sc + x.crypt * 31 + x.skip * 7));
    }
    if (v.size() > 1)
        cov("several-samples");
}
void bad(Sess& s, Rng& r, std::vector<Ctx>& cs) {
    std::vector<Smp> v(r.chance(60) ? 1 : r.range(2, 3));
    size_t t = r.below(v.size());
    for (size_t i = 0; i < v.size(); i++)
        make(s, r, v[i], cs[r.below(cs.size())]);
    Smp& x = v[t];
    const char* kind;
    std::vector<sa_subsample_length> subs = x.subs;
    x.s.subsample_lengths = subs.data();
    sa_key k = INVALID_HANDLE;
    sa_crypto_cipher_context c = INVALID_HANDLE;
    Finally f{[&] {
        if (c != INVALID_HANDLE) SA(s, crypto_cipher_release, c);
        if (k != INVALID_HANDLE) SA(s, key_release, k);
    }};
    GBuf small(8);
    bool insvp = x.ib.buffer_type == SA_BUFFER_TYPE_SVP;
    switch (r.below(16)) {
        case 0: kind = "iv-length"; x.s.iv_length = r.pick({(size_t) 0, (size_t) 8, (size_t) 15, (size_t) 17, (size_t) 32, SIZE_MAX}); break;
        case 1: kind = "no-iv"; x.s.iv = nullptr; break;
        case 2: {   // one more byte than a buffer has
            kind = "long-for-output";
            subs.back().bytes_of_protected_data += x.mo->g.n - x.ooff - x.total + r.range(1, 40);
            break;
        }
        case 3: kind = "long-for-input"; subs[0].bytes_of_clear_data += x.mi->g.n - x.ioff - x.total + r.range(1, 40); break;
        case 4: kind = "clear-overflow"; subs[0].bytes_of_clear_data = SIZE_MAX - r.below(x.total + 2); if (x.total == subs[0].bytes_of_protected_data && subs.size() == 1) subs[0].bytes_of_protected_data += 17; break;
        case 5: kind = "protected-overflow"; subs.back().bytes_of_protected_data = SIZE_MAX - r.below(4); subs.back().bytes_of_clear_data = r.range(4, 30); break;
        case 6: {   // two lengths that add up to a small number
            kind = "wrapping-sum";
            subs.push_back({0, SIZE_MAX});
            subs.push_back({0, 1 + r.below(3)});
            x.s.subsample_lengths = subs.data();
            x.s.subsample_count = subs.size();
            break;
        }
        case 7: kind = "offset"; (r.coin() ? x.ob : x.ib).context.clear.offset = SIZE_MAX - r.below(64);
            if (x.ob.buffer_type == SA_BUFFER_TYPE_SVP && x.ob.context.svp.offset == x.ooff) x.ob.context.svp.offset = SIZE_MAX - r.below(64);
            break;
        case 8: kind = "algorithm"; {
            Bytes key = r.bytes(32);
            k = must_sym(s, key);
            CParams p;
            sa_cipher_algorithm a = r.pick({SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_GCM,
                    SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305});
            cparams_rand(p, r, a);
            HCHECK(cinit(s, &c, a, SA_CIPHER_MODE_DECRYPT, k, p) == SA_STATUS_OK);
            x.s.context = c;
            break;
        }
        case 9: kind = "mode"; {
            k = must_sym(s, r.bytes(16));
            CParams p;
            sa_cipher_algorithm a = r.pick({SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_CBC});
            cparams_rand(p, r, a);
            HCHECK(cinit(s, &c, a, SA_CIPHER_MODE_ENCRYPT, k, p) == SA_STATUS_OK);
            x.s.context = c;
            break;
        }
        case 10:
            kind = "overlap";
            if (insvp) {
                x.ob = x.ib;
                if (r.coin()) x.ob.context.svp.offset = r.below(x.ioff + 1);
            } else
                x.ob = clear_buf(x.mi->g.p, x.mi->g.n, r.coin() ? x.ioff : r.below(x.ioff + 1));
            if (x.ioff - off_of(x.ob) >= x.total) { x.ob = x.mi->buf(x.ioff); }
            break;
        case 11: kind = "no-subsamples"; x.s.subsample_count = 0; break;
        case 12: kind = "no-map"; x.s.subsample_lengths = nullptr; break;
        case 13: kind = "no-buffer"; (r.coin() ? x.s.out : x.s.in) = nullptr; break;
        case 14: kind = "skip-alone"; x.s.crypt_byte_block = 0; x.s.skip_byte_block = r.range(1, 9); break;
        default: kind = "buffer-type"; if (r.coin() && x.ib.buffer_type == SA_BUFFER_TYPE_CLEAR) x.ib.buffer_type = (sa_buffer_type) r.range(2, 9); else x.ob.buffer_type = (sa_buffer_type) r.range(2, 9); break;
    }
    std::vector<sa_sample> arr;
    for (auto& y : v) arr.push_back(y.s);
    size_t io = off_of(x.ib), oo = off_of(x.ob);
    trace("bad %s in sample %zu of %zu: %s", kind, t, v.size(), describe(x).c_str());
    sa_status st = SA(s, process_common_encryption, arr.size(), arr.data());
    if (st == SA_STATUS_OK)
        viol(strf("accepted:%s", kind), "%s: a sample that is malformed (%s) was accepted", describe(x).c_str(), kind);
    for (auto& y : v)
        outside(y, "a refused call");
    if (x.s.in && x.s.out && (off_of(x.ib) != io || off_of(x.ob) != oo))
        viol(strf("refused-offsets:%s", kind), "a refused sample (%s) moved its offsets", kind);
    if (x.mo->g.get() != x.before)
        viol(strf("refused-written:%s", kind), "a refused sample (%s) wrote output", kind);
    cov(strf("refused:%s", kind));
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    std::vector<Ctx> cs;
    Finally f{[&] {
        for (auto& c : cs) { SA(s, crypto_cipher_release, c.c); SA(s, key_release, c.k); }
    }};
    for (size_t i = 0; i < r.range(1, 3); i++) {
        Ctx c;
        c.key = r.bytes(r.coin() ? 16 : 32);
        c.ctr = r.chance(60);
        sa_rights rt = rights_all();
        c.k = must_sym(s, c.key, &rt);
        CParams p;
        sa_cipher_algorithm a = c.ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC;
        cparams_rand(p, r, a);
        sa_status st = cinit(s, &c.c, a, SA_CIPHER_MODE_DECRYPT, c.k, p);
        if (st != SA_STATUS_OK)
            viol("init-refused", "cipher init gave %s", status_name(st));
        cs.push_back(c);
    }
    for (size_t i = 0; i < r.range(1, 4); i++)
        r.chance(80) ? good(s, r, cs) : bad(s, r, cs);
    if (index % 997 == 0)
        sample(strf("seed %" PRIu64 ": samples through %zu contexts", g_case_seed, cs.size()));
}
}   // namespace
Harness harness() {
    return {"Calls of 1-4 common encryption samples with random scheme, pattern, subsample map, IV (half of them near a counter rollover), offsets and buffer "
            "types, compared byte by byte with a model of ISO/IEC 23001-7; one call in five has a malformed sample",
            init, one, nullptr};
}
