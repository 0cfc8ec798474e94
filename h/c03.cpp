// C03: a key's material is usable exactly while not_before <= now < not_on_or_after, on every call.
#include "ops.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
bool inside(const sa_rights& rt, int64_t t) { return (uint64_t) t >= rt.not_before && (uint64_t) t < rt.not_on_or_after; }
// a clock value at, next to, or away from a limit of the key
int64_t clock_near(Rng& r, const sa_rights& rt) {
    const int64_t MAXT = INT64_MAX;
    auto lim = [](uint64_t v) { return (int64_t) std::min<uint64_t>(v, INT64_MAX); };
    int64_t a = lim(rt.not_before), b = lim(rt.not_on_or_after), t;
    switch (r.below(9)) {
        case 0: t = a; break;
        case 1: t = a > 0 ? a - 1 : 0; break;
        case 2: t = a < MAXT ? a + 1 : a; break;
        case 3: t = b; break;
        case 4: t = b > 0 ? b - 1 : 0; break;
        case 5: t = b < MAXT ? b + 1 : b; break;
        case 6: t = a < b ? (int64_t) r.range((uint64_t) a, (uint64_t) b) : a; break;
        case 7: t = 1700000000 + (int64_t) r.below(100000000); break;
        default: t = (int64_t) r.below(4) == 0 ? (int64_t) (r.next() >> 1) : (int64_t) r.below(1ull << 33); break;
    }
    return t;
}
int64_t clock_where(Rng& r, const sa_rights& rt, bool in) {
    for (int i = 0; i < 100; i++) {
        int64_t t = clock_near(r, rt);
        if (inside(rt, t) == in)
            return t;
    }
    return -1;
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    for (int round = 0; round < 3; round++) {
        KK kind = (KK) r.below(K_COUNT);
        sa_rights rt = rights_all();
        uint64_t base = 1700000000 + r.below(1000000);
        switch (r.below(7)) {
            case 0: rt.not_before = base; rt.not_on_or_after = base + 1; break;                 // one second
            case 1: rt.not_before = base; rt.not_on_or_after = base + r.range(2, 100000); break;
            case 2: rt.not_before = 0; rt.not_on_or_after = base; break;
            case 3: rt.not_before = base; rt.not_on_or_after = UINT64_MAX; break;
            case 4: rt.not_before = base + 10; rt.not_on_or_after = base; break;                // never
            case 5: rt.not_before = (1ull << 32) + r.below(1000); rt.not_on_or_after = rt.not_before + (1ull << r.below(40)); break;
            default: rt.not_before = base; rt.not_on_or_after = (1ull << 31) + r.below(3) + (r.coin() ? 1ull << 31 : 0); break;
        }
        w_time_on = true;
        w_time = clock_near(r, rt);   // creating a key with known material is not a use of it
        KInfo k = make_key(s, r, kind, rt);
        int64_t ok = clock_where(r, rt, true);
        if (kind == K_DH && ok >= 0) {
            w_time = ok;
            if (key_pub(s, k.h, &k.dh_pub) != SA_STATUS_OK)
                viol("public-refused", "public key refused inside the validity period");
        }
        auto v = ops_for(kind);
        size_t n = r.range(2, 6);
        for (size_t i = 0; i < n; i++) {
            const Op& o = *r.pick(v);
            OpEnv e{s, r, k, k.h};
            int64_t t0 = clock_near(r, rt), t1 = t0;
            bool moves = (o.sym_cipher || (o.clear && o.name != "key_check" && kind != K_SYM16 && kind != K_SYM32)) && r.coin();
            if (moves) {
                if (ok >= 0)
                    t0 = clock_where(r, rt, true);
                t1 = clock_near(r, rt);
                if (r.coin() && clock_where(r, rt, false) >= 0)
                    t1 = clock_where(r, rt, false);
                if (t0 < 0)
                    t0 = t1;
                e.mid = [&] {
                    w_time = t1;
                    cov(inside(rt, t1) ? "clock-moved-inside" : "clock-moved-outside");
                };
            }
            if (o.sym_cipher && r.chance(30))
                e.svp_out = o.svp_able;
            w_time = t0;
            bool in0 = inside(rt, t0), in1 = inside(rt, t1);
            bool expect = !o.load || (in0 && in1);
            sa_status st = run_op(o, e);
            std::string at = strf("%s with a %s key valid [%" PRIu64 ",%" PRIu64 ") at %" PRId64 "%s", o.name.c_str(), kk_name(kind),
                    rt.not_before, rt.not_on_or_after, t0, moves ? strf(" then %" PRId64, t1).c_str() : "");
            if (expect && st != SA_STATUS_OK)
                viol(strf("refused:%s", o.name.c_str()), "%s gave %s", at.c_str(), status_name(st));
            if (!expect && st == SA_STATUS_OK)
                viol(strf("%s:%s", in0 ? "allowed-after-move" : "allowed", o.name.c_str()), "%s succeeded", at.c_str());
            if (!expect && st != SA_STATUS_OPERATION_NOT_ALLOWED)
                viol(strf("status:%s", o.name.c_str()), "%s gave %s", at.c_str(), status_name(st));
            if (!expect && !in0 && e.stage != 0)
                viol(strf("late:%s", o.name.c_str()), "%s: refused only after a context had been created", at.c_str());
            cov(strf("%s:%s", !o.load ? "ungated" : expect ? "inside" : in0 ? "moved-out" : "outside", o.name.c_str()));
            auto rel = [](uint64_t t, uint64_t l) { return t < l ? (l - t == 1 ? 1 : 0) : t == l ? 2 : t - l == 1 ? 3 : 4; };
            uint64_t bits = (uint64_t) rel((uint64_t) t0, rt.not_before) * 5 + rel((uint64_t) t0, rt.not_on_or_after);
            bits = bits * 25 + (uint64_t) rel((uint64_t) t1, rt.not_before) * 5 + rel((uint64_t) t1, rt.not_on_or_after);
            nontrivial(hash_bytes(o.name.data(), o.name.size(), bits * 4 + moves * 2 + e.svp_out + ((uint64_t) kind << 20)));
        }
        sa_status st = SA(s, key_release, k.h);
        if (st != SA_STATUS_OK)
            viol("release-refused", "release of a key gave %s", status_name(st));
        w_time_on = false;
    }
    if (index % 2000 == 0)
        sample(strf("case seed %" PRIu64 ": keys with random periods, clock set around their limits before and during each operation",
                g_case_seed));
}
}   // namespace
Harness harness() {
    return {"a key of random kind with a random validity period (one second, open on either side, empty, beyond 2^32) and a virtual "
            "clock set at, next to and away from its limits before each catalogued operation, and again while a cipher context is "
            "open; the operation must succeed with the right answer or be refused with nothing left behind. Distinct: operation x "
            "kind x position of the clock against each limit, before and during",
            init, one, nullptr};
}
