// C23: no block the TA gives back still holds key material or plaintext.
#include "acts.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
sa_status run(const Act& a, FaultPlan& p, Rng q) {
    g_fp = &p;
    Finally f{[] {
        g_fp = nullptr;
        g_fault_scope = 0;
        w_alloc_watch = false;
        w_fail_at = 0;
    }};
    try {
        return a.run(q);
    } catch (CaseAbort&) {
        if (!p.refused)
            throw;
        return p.st;
    }
}
uint64_t g_faults;
void one(Rng& r, uint64_t index) {
    w_secret_clear();
    w_scan_on = true;
    Finally off{[] { w_scan_on = false; }};
    secret(root_key(), "the root key");
    secret(common_root_key(), "the common root key");
    bool client = index % 3 == 0;
    ClientCtx cctx(client);
    {
        Sess s(!client, client || r.coin() ? UUID_REE : mk_uuid(6));
        World w(s, r);
        Case c{s, w, r};
        w_secret_scan("making keys and contexts");
        for (size_t rounds = r.range(3, 6); rounds--;) {
            Act a = act_rand(c, client);
            for (bool ossl : {false, true}) {
                FaultPlan m;
                m.ossl = ossl;
                Rng q(r.next());   // numbers of its own, so that nothing public repeats a secret
                if (ossl && a.must_fail)
                    break;
                sa_status st = run(a, m, q);
                w_secret_scan(a.name.c_str());
                cov(strf("activity:%s:%s", a.name.c_str(), status_name(st)));
                for (size_t k = 0; k < 6 && !m.seen.empty(); k++) {   // and on the error paths
                    FaultPlan p;
                    p.ossl = ossl;
                    p.call = (int64_t) r.below(m.seen.size());
                    if (m.seen[(size_t) p.call].second == 0)
                        continue;
                    p.at = (int64_t) r.range(1, (uint64_t) m.seen[(size_t) p.call].second);
                    if (r.coin())   // late in the call, when there is most to erase
                        p.at = std::max(p.at, m.seen[(size_t) p.call].second - (int64_t) r.below(6));
                    p.persist = r.chance(25);
                    st = run(a, p, q);
                    ERR_clear_error();
                    if (!p.fired)
                        continue;
                    g_faults++;
                    w_secret_scan(strf("%s without memory (%s allocation %" PRId64 " in %s gave %s)", a.name.c_str(), ossl ? "OpenSSL" : "TA", p.at, p.fn.c_str(),
                            status_name(p.st)).c_str());
                    cov(strf("fault:%s:%s", p.fn.c_str(), status_name(p.st)));
                }
            }
        }
        w.use_all(r);
        w_secret_scan("using contexts");
    }
    cctx.end();
    w_secret_scan("ending the session");
    if (index % 100 == 1)
        sample(strf("case seed %" PRIu64 ": %" PRIu64 " blocks searched so far, %" PRIu64 " faults", g_case_seed, (uint64_t) w_frees_scanned, g_faults));
}
void finish() {
    cov("blocks-searched", w_frees_scanned);
    cov("bytes-searched", w_bytes_scanned);
    cov("faults", g_faults);
}
}   // namespace
Harness harness() {
    return {"every operation, object and session life cycle, container import, provisioning and invalid call, also with allocations failing; every block the TA frees or reallocates, "
            "and every OpenSSL number or block it frees itself, is searched for all keys, intermediate keys and plaintexts. Distinct: secret and place where one was erased",
            init, one, finish};
}
