// C02: an operation succeeds exactly when the key carries the usage flag it needs.
#include "ops.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    for (int round = 0; round < 3; round++) {
        KK kind = (KK) r.below(K_COUNT);
        sa_rights rt = rights_all();
        // usage: a random set, exactly one flag, or all but one
        uint64_t u = 0;
        switch (r.below(3)) {
            case 0: u = r.next() & 0x3f; break;
            case 1: u = 1ull << r.below(6); break;
            default: u = 0x3f & ~(1ull << r.below(6)); break;
        }
        rt.usage_flags = u | (0x3full << 6) | SA_USAGE_BIT_MASK(SA_USAGE_FLAG_SVP_OPTIONAL) |
                         (r.coin() ? SA_USAGE_BIT_MASK(SA_USAGE_FLAG_CACHEABLE) : 0);
        rt.child_usage_flags = r.chance(30) ? r.next() & 0x3fff : 0;   // says nothing about the key itself
        KInfo k = make_key(s, r, kind, rt);
        if (kind == K_DH && key_pub(s, k.h, &k.dh_pub) != SA_STATUS_OK)
            viol("public-refused", "public key refused");
        auto v = ops_for(kind);
        size_t n = r.range(1, 5);
        for (size_t i = 0; i < n; i++) {
            const Op& o = *r.pick(v);
            OpEnv e{s, r, k, k.h};
            bool allowed = o.flag < 0 || (rt.usage_flags & SA_USAGE_BIT_MASK(o.flag));
            sa_status st = run_op(o, e);
            if (allowed && st != SA_STATUS_OK)
                viol(strf("refused:%s", o.name.c_str()), "%s with %s usage 0x%" PRIx64 " gave %s", o.name.c_str(), kk_name(kind),
                        rt.usage_flags, status_name(st));
            if (!allowed && st == SA_STATUS_OK)
                viol(strf("allowed:%s", o.name.c_str()), "%s succeeded with a %s key of usage 0x%" PRIx64 " without flag %d",
                        o.name.c_str(), kk_name(kind), rt.usage_flags, o.flag);
            if (!allowed && st != SA_STATUS_OPERATION_NOT_ALLOWED)
                viol(strf("status:%s", o.name.c_str()), "%s refused with %s", o.name.c_str(), status_name(st));
            if (!allowed && e.stage != 0)
                viol(strf("late:%s", o.name.c_str()), "%s was refused only after a context had been created", o.name.c_str());
            cov(strf("%s:%s", allowed ? "allowed" : "refused", o.name.c_str()));
            nontrivial(hash_bytes(o.name.data(), o.name.size(), (rt.usage_flags & 0x203f) * 131 + (uint64_t) kind));
        }
        // and the flags themselves are as given
        OpEnv e{s, r, k, k.h};
        run_op(*std::find_if(v.begin(), v.end(), [](const Op* o) { return o->name == "header"; })[0], e);
        sa_status st = SA(s, key_release, k.h);
        if (st != SA_STATUS_OK)
            viol("release-refused", "release gave %s", status_name(st));
    }
    if (index % 2000 == 0)
        sample(strf("case seed %" PRIu64 ": three keys, random flags, operations drawn from %zu", g_case_seed, ops().size()));
}
}   // namespace
Harness harness() {
    return {"a key of random kind (symmetric 128/256, RSA, P-256, Ed25519, X25519, DH) with a random, single or all-but-one set of "
            "usage flags; random operations of the catalogue; each must succeed with the right answer or be refused with nothing "
            "left behind. Distinct: operation x key kind x flags",
            init, one, nullptr};
}
