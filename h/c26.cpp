// C26: any allocation that fails, at any point of any operation, gives an ordinary error and nothing else.
#include "acts.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
// runs an activity under a plan; true if it ran to its end (a call that failed may leave the rest without what it needs)
bool run(Case& c, const Act& a, FaultPlan& p, Rng q, sa_status* st) {
    g_fp = &p;
    Finally f{[] {
        g_fp = nullptr;
        g_fault_scope = 0;
        w_alloc_watch = false;
        w_fail_at = 0;
    }};
    try {
        *st = a.run(q);
        return true;
    } catch (CaseAbort&) {
        if (p.refused)
            return false;
        throw;
    }
}
void judge(Case& c, const Act& a, const FaultPlan& p, sa_status st, bool ended, uint64_t live) {
    const char* n = a.name.c_str();
    if (p.fired && p.st == SA_STATUS_OK)
        cov("survived");
    if (a.must_fail && ended && st == SA_STATUS_OK)
        viol(strf("accepted:%s", n), "%s, which must fail, succeeded when allocation %" PRId64 " in %s failed", n, p.at, p.fn.c_str());
    if (!a.must_fail && ended && st != SA_STATUS_OK && !p.refused)
        viol(strf("refused:%s", n), "%s gave %s though the call that ran out of memory (%s) succeeded", n, status_name(st), p.fn.c_str());
    bool kept_by_release = p.refused && p.fn.size() > 8 && p.fn.compare(p.fn.size() - 8, 8, "_release") == 0;   // then the object stays
    kept_by_release |= p.fn == "key_provision_ta" && g_unreleased;
    if (ended && !kept_by_release && live_blocks() != live) {
        if (getenv("VERIF_ALLOCMAP"))
            ta_live_dump();
        viol(strf("memory-held:%s:%s", n, p.fn.c_str()), "after allocation %" PRId64 "%s of %s (%s) failed with %s, TA memory blocks: %" PRIu64 ", before: %" PRIu64, p.at,
                p.persist ? " and later ones" : "", p.fn.c_str(), n, status_name(p.st), live_blocks(), live);
    }
}
size_t room(Sess& s, Rng& r, OT t, const KInfo& k) {
    std::vector<sa_handle> v;
    GBuf mem(16);
    sa_rights ra = rights_all();
    sa_status st;
    for (;;) {
        sa_handle h = INVALID_HANDLE;
        CParams p;
        switch (t) {
            case O_KEY: st = imp_sym(s, &h, k.mat.data(), 16, &ra); break;
            case O_CIPHER: cparams_rand(p, r, SA_CIPHER_ALGORITHM_AES_CTR); st = cinit(s, &h, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_ENCRYPT, k.h, p); break;
            case O_MAC: st = SA(s, crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, k.h, nullptr); break;
            default: st = SA(s, svp_buffer_create, &h, mem.p, mem.n);
        }
        if (st != SA_STATUS_OK)
            break;
        v.push_back(h);
    }
    if (st != SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT)
        viol("refused:fill", "creating a %s gave %s", ot_name(t), status_name(st));
    for (auto h : v) {
        void* m;
        size_t z;
        switch (t) {
            case O_KEY: st = SA(s, key_release, h); break;
            case O_CIPHER: st = SA(s, crypto_cipher_release, h); break;
            case O_MAC: st = SA(s, crypto_mac_release, h); break;
            default: st = SA(s, svp_buffer_release, &m, &z, h);
        }
    }
    return v.size();
}
uint64_t g_faults;
void one(Rng& r, uint64_t index) {
    uint64_t before = live_blocks();
    bool client = index % 3 == 0;
    ClientCtx cctx(client);
    {
        Sess s(!client, client || r.coin() ? UUID_REE : mk_uuid(6));
        World w(s, r);
        Case c{s, w, r};
        size_t whole[4];
        bool aborted = false;
        bool fill = index % 8 < 2;
        if (fill)
            for (OT t : {O_KEY, O_CIPHER, O_MAC, O_SVP})
                whole[t] = room(s, r, t, w.k(K_SYM16));
        for (size_t rounds = r.range(2, 4); rounds--;) {
            Act a = act_rand(c, client);
            for (bool ossl : {false, true}) {
                FaultPlan m;
                m.ossl = ossl;
                Rng q = r;
                sa_status st = SA_STATUS_OK;
                uint64_t live = live_blocks();
                run(c, a, m, q, &st);
                if ((st == SA_STATUS_OK) == a.must_fail)
                    viol(strf("%s:%s", a.must_fail ? "accepted" : "use-refused", a.name.c_str()), "%s gave %s", a.name.c_str(), status_name(st));
                if (live_blocks() != live)
                    viol(strf("memory-held:%s", a.name.c_str()), "%s left memory", a.name.c_str());
                for (size_t ci = 0; ci < m.seen.size(); ci++) {
                    int64_t n = m.seen[ci].second;
                    size_t limit = ossl ? 6 : 24;
                    for (int64_t i = 1; i <= n; i++) {
                        if ((size_t) n > limit && !r.chance((unsigned) (limit * 100 / (size_t) n)))
                            continue;
                        FaultPlan p;
                        p.ossl = ossl;
                        g_unreleased = false;
                        p.call = (int64_t) ci;
                        p.at = i;
                        p.persist = r.chance(25);
                        live = live_blocks();
                        trace("%s: fault in call %zu (%s), %s allocation %" PRId64 " of %" PRId64 "%s", a.name.c_str(), ci, m.seen[ci].first.c_str(),
                                ossl ? "OpenSSL" : "TA", i, n, p.persist ? " and later" : "");
                        bool ended = run(c, a, p, q, &st);
                        ERR_clear_error();
                        if (!p.fired)
                            continue;
                        g_faults++;
                        cov(strf("%s:%s:%s", ossl ? "ossl" : "ta", p.fn.c_str(), status_name(p.st)));
                        nontrivial(hash_bytes(a.name.data(), a.name.size(), mix64(ci * 1000 + (uint64_t) i, (uint64_t) p.st * 4 + ossl * 2 + p.persist)));
                        if (!ended || g_unreleased || (p.refused && p.fn.find("_release") != std::string::npos))
                            aborted = true;
                        judge(c, a, p, st, ended, live);
                        if (r.chance(20)) {   // and then it works
                            FaultPlan none;
                            run(c, a, none, q, &st);
                            if ((st == SA_STATUS_OK) == a.must_fail)
                                viol(strf("then-refused:%s", a.name.c_str()), "%s gave %s when tried again with memory available", a.name.c_str(), status_name(st));
                        }
                    }
                }
                FaultPlan none;
                run(c, a, none, q, &st);
                if ((st == SA_STATUS_OK) == a.must_fail)
                    viol(strf("then-refused:%s", a.name.c_str()), "%s gave %s when tried again with memory available", a.name.c_str(), status_name(st));
            }
            cov(strf("activity:%s", a.name.c_str()));
        }
        w.verify(r);
        w.use_all(r);
        if (fill && !aborted)
            for (OT t : {O_KEY, O_CIPHER, O_MAC, O_SVP}) {
                size_t now = room(s, r, t, w.k(K_SYM16));
                if (now != whole[t])
                    viol(strf("slots-lost:%s", ot_name(t)), "%zu slots for a %s were free before, %zu after", whole[t], ot_name(t), now);
                cov("slots-counted");
            }
    }
    cctx.end();
    if (live_blocks() != before) {
        if (getenv("VERIF_ALLOCMAP"))
            ta_live_dump();
        viol("memory-held:session", "TA memory blocks before: %" PRIu64 ", after the session ended: %" PRIu64, before, live_blocks());
    }
    if (index % 200 == 1)
        sample(strf("case seed %" PRIu64 ": %" PRIu64 " faults so far", g_case_seed, g_faults));
}
void finish() { cov("faults", g_faults); }
}   // namespace
Harness harness() {
    return {"every operation, object and session life cycle, container import and invalid call, with each allocation of the TA, and a sample of OpenSSL's, failing in turn "
            "(once, or from then on). Distinct: activity, call, allocation, status",
            init, one, finish};
}
