// C12: MACs are the standard value over exactly the data fed, computed once.
#include "ops.hpp"
namespace {
struct Mac {
    sa_crypto_mac_context c = INVALID_HANDLE;
    sa_mac_algorithm a;
    sa_digest_algorithm d;
    Bytes key, data;
    bool done = false;
    size_t len() const { return a == SA_MAC_ALGORITHM_HMAC ? digest_len(d) : 16; }
    Bytes expect() const { return a == SA_MAC_ALGORITHM_HMAC ? ref_hmac(d, key, data) : ref_cmac(key, data); }
};
struct Key { sa_key h; Bytes m; };
void init() {
    Rng r(12);
    ops_warmup(r);
}
size_t feed_len(Rng& r) {
    switch (r.below(8)) {
        case 0: return 0;
        case 1: return 16 * r.range(1, 4);
        case 2: return 64 * r.range(1, 4) + r.below(3) - 1;
        case 3: return 128 * r.range(1, 3) + r.below(3) - 1;
        case 4: return r.below(3000);
        default: return r.below(40);
    }
}
size_t key_len(Rng& r) {
    switch (r.below(6)) {
        case 0: return 16;
        case 1: return 32;
        case 2: return r.pick({63, 64, 65, 127, 128, 129});   // around the digest block sizes
        case 3: return r.pick({511, 512, 17, 20, 48});
        default: return r.range(16, 512);
    }
}
void check(Sess& s, Rng& r, Mac& m) {
    size_t L = m.len();
    if (r.chance(40)) {   // a size query adds nothing and reports the length
        size_t n = r.below(3) ? r.below(100) : 0;
        sa_status st = SA(s, crypto_mac_compute, nullptr, &n, m.c);
        if (m.done ? (st == SA_STATUS_OK && n != L) : (st != SA_STATUS_OK || n != L))
            viol("size-query", "the size query gave %s and %zu, the MAC has %zu bytes", status_name(st), n, L);
    }
    if (!m.done && r.chance(30)) {   // too short: refused, writes nothing, adds nothing
        size_t n = r.below(L);
        GBuf o(n);
        sa_status st = SA(s, crypto_mac_compute, o.p, &n, m.c);
        if (st == SA_STATUS_OK)
            viol("short-accepted", "a buffer of %zu bytes was accepted for a MAC of %zu", o.n, L);
        if (o.get() != Bytes(o.n, 0xA5))
            viol("short-written", "a refused compute wrote to its output");
    }
    size_t n = r.coin() ? L : L + r.below(20);
    GBuf o(n);
    sa_status st = SA(s, crypto_mac_compute, o.p, &n, m.c);
    if (m.done) {
        if (st == SA_STATUS_OK)
            viol("computed-twice", "a second compute was accepted");
        if (o.get() != Bytes(o.n, 0xA5))
            viol("refused-written", "a refused compute wrote to its output");
        cov("refused-after-compute");
        return;
    }
    if (st != SA_STATUS_OK)
        viol("compute-refused", "compute gave %s", status_name(st));
    if (n != L || o.get(0, L) != m.expect())
        viol(strf("wrong-mac:%s", m.a == SA_MAC_ALGORITHM_HMAC ? "hmac" : "cmac"), "%s of %zu bytes under a %zu byte key: got %s (%zu bytes), expected %s",
                m.a == SA_MAC_ALGORITHM_HMAC ? "HMAC" : "CMAC", m.data.size(), m.key.size(), hex(o.get(0, L)).c_str(), n, hex(m.expect()).c_str());
    for (size_t i = L; i < o.n; i++)
        if (o.p[i] != 0xA5)
            viol("written-past", "compute wrote past the MAC");
    m.done = true;
    cov(m.a == SA_MAC_ALGORITHM_HMAC ? strf("hmac:%zu", L) : strf("cmac:%zu", m.key.size()));
    nontrivial(hash_bytes(m.data.data(), m.data.size(), hash_bytes(m.key.data(), m.key.size())));
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    std::vector<Mac> ms;
    std::vector<Key> ks;
    struct Guard {
        std::function<void()> f;
        ~Guard() { quietly(f); }
    } g{[&] {
        for (auto& m : ms)
            SA(s, crypto_mac_release, m.c);
        for (auto& k : ks)
            SA(s, key_release, k.h);
    }};
    size_t steps = r.range(10, g_thorough ? 80 : 40);
    for (size_t i = 0; i < steps; i++) {
        unsigned what = (unsigned) r.below(10);
        if (ms.empty() || what == 0) {
            Mac m;
            m.a = r.chance(60) ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC;
            m.d = DIGESTS[r.below(4)];
            m.key = r.bytes(m.a == SA_MAC_ALGORITHM_CMAC ? r.pick({16, 32}) : key_len(r));
            if (r.chance(10))
                memset(m.key.data(), 0, m.key.size() / 2);
            sa_key k = must_sym(s, m.key);
            sa_mac_parameters_hmac hp = {m.d};
            sa_status st = SA(s, crypto_mac_init, &m.c, m.a, k, m.a == SA_MAC_ALGORITHM_HMAC ? &hp : nullptr);
            if (st != SA_STATUS_OK)
                viol("init-refused", "a MAC context over a %zu byte key was refused: %s", m.key.size(), status_name(st));
            ms.push_back(m);
            if (r.coin())
                SA(s, key_release, k);   // the context must not depend on the handle
            else
                ks.push_back({k, m.key});
            continue;
        }
        Mac& m = ms[r.below(ms.size())];
        if (what < 6) {
            GBuf in(r.bytes(feed_len(r)));
            sa_status st = SA(s, crypto_mac_process, m.c, in.n == 0 && r.coin() ? nullptr : in.p, in.n);
            if (m.done ? st == SA_STATUS_OK : st != SA_STATUS_OK)
                viol(m.done ? "fed-after-compute" : "feed-refused", "process of %zu bytes gave %s", in.n, status_name(st));
            if (!m.done)
                app(m.data, in.get());
        } else if (what < 8 && !ks.empty()) {
            const Key& k = r.pick(ks);
            sa_status st = SA(s, crypto_mac_process_key, m.c, k.h);
            if (m.done ? st == SA_STATUS_OK : st != SA_STATUS_OK)
                viol(m.done ? "key-fed-after-compute" : "key-feed-refused", "process_key of %zu bytes gave %s", k.m.size(), status_name(st));
            if (!m.done)
                app(m.data, k.m), cov("key-material-fed");
        } else if (what == 8 && r.coin()) {   // calls that fail: nothing of them may enter the MAC
            sa_status st;
            switch (r.below(3)) {
                case 0: st = SA(s, crypto_mac_process, m.c, nullptr, r.range(1, 100)); break;
                case 1: st = SA(s, crypto_mac_process_key, m.c, INVALID_HANDLE); break;
                default: {
                    sa_rights no = rights_all();   // outside its validity period
                    no.not_on_or_after = 1;
                    Bytes b = r.bytes(16);
                    sa_key k = must_sym(s, b, &no);
                    st = SA(s, crypto_mac_process_key, m.c, k);
                    SA(s, key_release, k);
                    break;
                }
            }
            if (st == SA_STATUS_OK)
                viol("bad-feed-accepted", "an invalid feeding call was accepted");
            cov("failed-feed");
        } else {
            check(s, r, m);
            if (r.chance(20)) {
                size_t x = (size_t) (&m - ms.data());
                SA(s, crypto_mac_release, m.c);
                ms.erase(ms.begin() + (long) x);
            }
        }
    }
    for (auto& m : ms)
        check(s, r, m);
    for (auto& k : ks) {   // keys whose material was fed are unchanged
        std::string why;
        if (!sym_matches(s, k.h, k.m, &why))
            viol("key-changed", "%s", why.c_str());
    }
    if (index % 5000 == 0)
        sample(strf("case seed %" PRIu64 ": %zu contexts", g_case_seed, ms.size()));
}
}   // namespace
Harness harness() {
    return {"random interleavings of several HMAC and CMAC contexts: data, empty data, key material, failing calls, size queries, short buffers, "
            "computes and further calls. Distinct: computed MACs by key and message",
            init, one, nullptr};
}
