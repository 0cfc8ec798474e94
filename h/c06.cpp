// C06: a child key has exactly the requested rights restricted by what its parent lacks.
#include "ops.hpp"
namespace {
std::vector<const Op*> makers;
const uint64_t PROT = 0x7full << 6, USE = 0x3f;
void init() {
    Rng r(7);
    ops_warmup(r);
    for (auto& o : ops())
        if (o.creates)
            makers.push_back(&o);
}
uint64_t expected_flags(const Op& o, const sa_rights& parent, uint64_t asked) {
    if (o.parent_pos == 0)   // not the key whose rights restrict
        return asked;
    uint64_t f = asked & ~(~parent.usage_flags & PROT);
    uint64_t key_only = SA_USAGE_BIT_MASK(SA_USAGE_FLAG_UNWRAP);
    if ((parent.usage_flags & USE) == key_only && parent.child_usage_flags != 0)
        f &= ~(~parent.child_usage_flags & USE);
    return f;
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    for (int round = 0; round < 4; round++) {
        const Op& o = *r.pick(makers);
        std::vector<KK> kinds;
        for (int i = 0; i < K_COUNT; i++)
            if (o.kinds & (1u << i))
                kinds.push_back((KK) i);
        KK kind = r.pick(kinds);
        sa_rights prt = rights_rand(r, true);
        uint64_t need = SA_USAGE_BIT_MASK(o.flag);
        // the default platform reports an HDCP 2.2 output
        uint64_t usable = SA_USAGE_BIT_MASK(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22);
        prt.usage_flags = (r.next() & ((1ull << r.range(13, 14)) - 1)) | need | usable;
        if (o.unwraps && r.coin())
            prt.usage_flags = (prt.usage_flags & ~USE) | need;
        prt.child_usage_flags = r.chance(40) ? 0 : r.coin() ? r.next() & USE : r.next() & 0x3fff;
        KInfo k = make_key(s, r, kind, prt);
        sa_rights child = rights_rand(r, false);
        if (r.chance(30))
            child.usage_flags |= 0x3fff;
        OpEnv e{s, r, k, k.h};
        e.child = &child;
        unsigned seen = 0;
        e.on_child = [&](sa_key c) {
            seen++;
            sa_header h;
            sa_status st = SA(s, key_header, &h, c);
            if (st != SA_STATUS_OK)
                viol(strf("child-header:%s", o.name.c_str()), "the header of the new key gave %s", status_name(st));
            sa_rights want = child;
            want.usage_flags = expected_flags(o, prt, child.usage_flags);
            if (h.rights.usage_flags != want.usage_flags)
                viol(strf("child-flags:%s", o.name.c_str()),
                        "%s: parent usage 0x%" PRIx64 " child usage 0x%" PRIx64 ", requested 0x%" PRIx64 ", got 0x%" PRIx64 ", expected 0x%" PRIx64,
                        o.name.c_str(), prt.usage_flags, prt.child_usage_flags, child.usage_flags, h.rights.usage_flags, want.usage_flags);
            if (!rights_equal(h.rights, want))
                viol(strf("child-rights:%s", o.name.c_str()), "%s: asked %s, got %s", o.name.c_str(), rights_str(want).c_str(),
                        rights_str(h.rights).c_str());
            // export and import do not widen them
            if (want.usage_flags & SA_USAGE_BIT_MASK(SA_USAGE_FLAG_CACHEABLE) && r.chance(20)) {
                Bytes box;
                sa_key c2;
                if (key_export(s, c, nullptr, &box) == SA_STATUS_OK &&
                        SA(s, key_import, &c2, SA_KEY_FORMAT_EXPORTED, box.data(), box.size(), nullptr) == SA_STATUS_OK) {
                    sa_header h2;
                    if (SA(s, key_header, &h2, c2) != SA_STATUS_OK || !rights_equal(h2.rights, want))
                        viol("child-rights:reimported", "the rights of a child changed through export and import");
                    cov("reimported");
                    SA(s, key_release, c2);
                } else
                    viol("child-rights:export", "export and import of a cacheable child failed");
            }
        };
        sa_status st = run_op(o, e);
        if (st != SA_STATUS_OK)
            viol(strf("refused:%s", o.name.c_str()), "%s with parent rights %s gave %s", o.name.c_str(), rights_str(prt).c_str(),
                    status_name(st));
        if (seen != (o.name.compare(0, 10, "netflix_dh") == 0 ? 3u : 1u))
            viol(strf("child-count:%s", o.name.c_str()), "%s made %u keys", o.name.c_str(), seen);
        sa_header ph;
        if (SA(s, key_header, &ph, k.h) != SA_STATUS_OK || !rights_equal(ph.rights, prt))
            viol(strf("parent-changed:%s", o.name.c_str()), "the parent's rights changed");
        cov(o.name);
        nontrivial(hash_bytes(o.name.data(), o.name.size(), mix64((prt.usage_flags & 0x1fff) << 32 | (child.usage_flags & 0x3fff),
                prt.child_usage_flags & 0x3f)));
        SA(s, key_release, k.h);
    }
    if (index % 4000 == 0)
        sample(strf("case seed %" PRIu64 ": four parent/child pairs with random rights", g_case_seed));
}
}   // namespace
Harness harness() {
    return {"random parent rights (carrying the flag the operation needs) and random requested child rights for every operation that makes a "
            "key from a key; the child's header is compared with the rule, the parent's with what it was. Distinct: operation x parent "
            "usage and child usage flags x requested flags",
            init, one, nullptr};
}
