// C21: threads sharing sessions, keys, contexts and SVP buffers; race detector, histories checked against sequential orders.
#include "fails.hpp"
#include <chrono>
#include <sys/wait.h>
#include <unistd.h>
namespace {
int64_t now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// Runs the jobs together; each has its own random numbers and notes, nothing of the monitor orders them.
void together(Rng& r, std::vector<std::function<void(Rng&)>> jobs) {
    std::vector<std::thread> th;
    std::vector<ThreadNotes> notes(jobs.size());
    std::vector<char> failed(jobs.size());
    std::atomic<size_t> ready{0};
    w_delay_seed(r.next());
    w_delay_on = r.chance(75);
    for (size_t i = 0; i < jobs.size(); i++)
        th.emplace_back([&, i, seed = r.next()] {
            Rng q(seed);
            t_notes = &notes[i];
            ready++;
            while (ready < jobs.size())
                sched_yield();
            try {
                jobs[i](q);
            } catch (CaseAbort&) {
                failed[i] = 1;
            }
            t_notes = nullptr;
        });
    for (auto& t : th)
        t.join();
    w_delay_on = false;
    bool bad = false;
    for (size_t i = 0; i < jobs.size(); i++) {
        notes[i].merge();
        bad |= failed[i];
    }
    if (bad)
        throw CaseAbort();
}
struct Ev {   // one call of a history
    int thread;
    int64_t call, ret;
    sa_status st;
    Bytes in, out;
    size_t pos = 0;
};
std::string last_history;
uint64_t history_hash(std::vector<Ev> h) {   // which thread's calls and returns came in which order
    std::vector<std::pair<int64_t, int>> e;
    for (auto& x : h) {
        e.push_back({x.call, x.thread * 2});
        e.push_back({x.ret, x.thread * 2 + 1});
    }
    std::sort(e.begin(), e.end());
    uint64_t v = 1;
    last_history.clear();
    for (auto& x : e) {
        v = mix64(v, (uint64_t) x.second);
        if (last_history.size() < 300)
            last_history += strf(" %c%d", x.second & 1 ? 'r' : 'c', x.second / 2);
    }
    return v;
}
size_t overlaps(const std::vector<Ev>& h) {
    size_t n = 0;
    for (size_t i = 0; i < h.size(); i++)
        for (size_t j = i + 1; j < h.size(); j++)
            n += h[i].thread != h[j].thread && h[i].call < h[j].ret && h[j].call < h[i].ret;
    return n;
}
// the order found must not put a call before one that had ended when it began
void judge_order(const std::vector<Ev>& h, const char* what) {
    int64_t min_ret = INT64_MAX;
    for (size_t i = h.size(); i--;) {
        if (min_ret < h[i].call)
            viol(strf("order:%s", what), "%s: call %zu of the only possible order took effect before one that had returned when it was made", what, i);
        min_ret = std::min(min_ret, h[i].ret);
    }
}
struct Life { OT type; sa_handle h; int64_t made, released; };
void judge_handles(std::vector<Life> v) {
    std::sort(v.begin(), v.end(), [](const Life& a, const Life& b) { return std::tie(a.type, a.h, a.made) < std::tie(b.type, b.h, b.made); });
    for (size_t i = 1; i < v.size(); i++)
        if (v[i].type == v[i - 1].type && v[i].h == v[i - 1].h && v[i].made < v[i - 1].released)
            viol(strf("handle-shared:%s", ot_name(v[i].type)), "%s handle %lu was given out again while live", ot_name(v[i].type), v[i].h);
    cov("handles-compared", v.size());
}

// ---- objects of their own, on one session or several, and keys in common
void m_own(Rng& r, bool client) {
    size_t nt = r.range(2, 6), steps = r.range(3, 10);
    bool share = client || r.coin();
    std::vector<std::unique_ptr<Sess>> ss;
    for (size_t i = 0; i < (share ? 1 : nt); i++)
        ss.emplace_back(new Sess(!client, client ? UUID_REE : mk_uuid((uint8_t) (20 + i))));
    std::unique_ptr<World> w(share ? new World(*ss[0], r) : nullptr);
    std::vector<std::vector<Life>> lives(nt);
    std::vector<std::function<void(Rng&)>> jobs;
    for (size_t t = 0; t < nt; t++)
        jobs.push_back([&, t](Rng& q) {
            Sess& s = *ss[share ? 0 : t];
            std::vector<std::unique_ptr<Obj>> mine;
            std::vector<size_t> life;
            auto drop = [&](size_t i) {
                lives[t][life[i]].released = now();
                sa_status st = mine[i]->release(s);
                if (st != SA_STATUS_OK)
                    viol(strf("release-refused:%s", ot_name(mine[i]->type)), "releasing a live %s gave %s", ot_name(mine[i]->type), status_name(st));
                mine.erase(mine.begin() + (long) i);
                life.erase(life.begin() + (long) i);
            };
            for (size_t k = 0; k < steps; k++) {
                size_t what = q.below(10);
                if (mine.empty() || (what < 3 && mine.size() < 4)) {
                    auto o = obj_create(s, q, (OT) q.below(4));
                    life.push_back(lives[t].size());
                    lives[t].push_back({o->type, o->h, now(), INT64_MAX});
                    mine.push_back(std::move(o));
                } else if (what < 5)
                    drop(q.below(mine.size()));
                else if (what < 8 || !share) {
                    auto& o = *mine[q.below(mine.size())];
                    o.use(s, q);
                    o.verify(s, q);
                } else {   // a key all use
                    KK kk = (KK) q.below(K_COUNT);
                    const Op& o = *q.pick(ops_for(kk));
                    OpEnv e{s, q, w->k(kk), w->h(kk)};
                    sa_status st = run_op(o, e);
                    if (st != SA_STATUS_OK)
                        viol(strf("use-refused:%s", o.name.c_str()), "%s with a key other threads use too gave %s", o.name.c_str(), status_name(st));
                    cov(strf("common:%s", o.name.c_str()));
                }
            }
            while (!mine.empty())
                drop(0);
        });
    together(r, jobs);
    if (share) {
        std::vector<Life> all;
        for (auto& l : lives)
            all.insert(all.end(), l.begin(), l.end());
        judge_handles(all);
        w->verify(r);
        w->use_all(r);
    }
    cov(client ? "own:client" : share ? "own:one-session" : "own:sessions");
}

// ---- one cipher context: the calls must have taken effect one after another
void m_cipher(Rng& r) {
    Sess s(r.chance(80));
    int kind = (int) r.below(3);   // CTR, CBC, GCM
    sa_cipher_algorithm a = kind == 0 ? SA_CIPHER_ALGORITHM_AES_CTR : kind == 1 ? SA_CIPHER_ALGORITHM_AES_CBC : SA_CIPHER_ALGORITHM_AES_GCM;
    Bytes key = r.bytes(16);
    sa_rights ra = rights_all();
    sa_key k = must_sym(s, key, &ra);
    CParams p;
    cparams_rand(p, r, a);
    sa_crypto_cipher_context c = INVALID_HANDLE;
    HCHECK(cinit(s, &c, a, SA_CIPHER_MODE_ENCRYPT, k, p) == SA_STATUS_OK);
    SA(s, key_release, k);   // the context has its own
    size_t nt = r.range(2, 5), n = r.range(3, 10);
    std::vector<std::vector<Ev>> hs(nt);
    Ev last{0, INT64_MAX, INT64_MAX, SA_STATUS_INTERNAL_ERROR, {}, {}};
    Bytes tag(16);
    bool finish = kind == 2;
    std::vector<std::function<void(Rng&)>> jobs;
    for (size_t t = 0; t < nt; t++)
        jobs.push_back([&, t](Rng& q) {
            for (size_t i = 0; i < n; i++) {
                Ev e{(int) t, 0, 0, SA_STATUS_OK, q.bytes(kind == 0 ? q.range(8, 40) : 16 * q.range(1, 3)), {}};
                GBuf in(e.in), out(e.in.size());
                sa_buffer ib = clear_buf(in.p, in.n), ob = clear_buf(out.p, out.n);
                size_t len = in.n;
                if (q.chance(15)) {
                    size_t z = in.n;
                    sa_status st = SA(s, crypto_cipher_process, nullptr, c, &ib, &z);
                    if (st == SA_STATUS_OK && z < in.n)
                        viol("query-wrong:process", "a size query on a shared context asked for %zu bytes for %zu", z, in.n);
                }
                e.call = now();
                e.st = SA(s, crypto_cipher_process, &ob, c, &ib, &len);
                e.ret = now();
                if (e.st == SA_STATUS_OK && len != in.n)
                    viol("use-wrong:process", "process of %zu bytes returned %zu", in.n, len);
                e.out = out.get();
                hs[t].push_back(e);
                if (finish && t == 0 && i + 1 == std::min<size_t>(n, 2)) {
                    Bytes x = q.bytes(q.below(16));
                    last.in = x;
                    GBuf li(x), lo(x.size()), tg(16);
                    sa_buffer lb = clear_buf(li.p, li.n), lob = clear_buf(lo.p, lo.n);
                    size_t ll = li.n;
                    sa_cipher_end_parameters_aes_gcm ep = {tg.p, 16};
                    last.call = now();
                    last.st = SA(s, crypto_cipher_process_last, &lob, c, &lb, &ll, &ep);
                    last.ret = now();
                    last.out = lo.get();
                    tag = tg.get();
                }
            }
        });
    together(r, jobs);
    std::vector<Ev> h, no;
    for (auto& x : hs)
        for (auto& e : x)
            (e.st == SA_STATUS_OK ? h : no).push_back(e);
    if (finish && last.st != SA_STATUS_OK)
        viol("use-refused:process_last", "finishing a shared context gave %s", status_name(last.st));
    for (auto& e : no)
        if (!finish || e.ret < last.call)
            viol(strf("use-refused:process:%s", alg_name(a)), "process on a live shared context gave %s", status_name(e.st));
    for (auto& e : h)
        if (finish && e.call > last.ret)
            viol("after-end:process", "process succeeded on a context that had been finished");
    size_t total = 0;
    for (auto& e : h)
        total += e.in.size();
    cov("overlapping-calls", overlaps(h));
    nontrivial(history_hash(h));
    if (kind == 1) {   // each call's first block tells which block it was chained to
        std::map<Bytes, size_t> by_prev;
        for (size_t i = 0; i < h.size(); i++) {
            Bytes d = ref_ecb(key, Bytes(h[i].out.begin(), h[i].out.begin() + 16), false);
            for (int b = 0; b < 16; b++)
                d[(size_t) b] ^= h[i].in[(size_t) b];
            if (!by_prev.insert({d, i}).second)
                viol("order:CBC", "two calls on one CBC context were chained to the same block");
        }
        std::vector<Ev> o;
        Bytes prev = p.iv;
        for (size_t i = 0; i < h.size(); i++) {
            auto it = by_prev.find(prev);
            if (it == by_prev.end())
                viol("order:CBC", "after %zu of %zu calls on a shared CBC context none continues the chain", i, h.size());
            const Ev& e = h[it->second];
            if (ref_cbc(key, prev, e.in, true) != e.out)
                viol("use-wrong:process:CBC", "a call on a shared CBC context returned wrong data");
            o.push_back(e);
            prev.assign(e.out.end() - 16, e.out.end());
        }
        judge_order(o, "CBC");
    } else {
        Bytes zero(total + last.in.size() + 64), ks;
        if (kind == 0)
            ks = ref_ctr(key, p.ctr, zero);
        else {
            Bytes t;
            ks = ref_gcm_enc(key, p.iv, p.aad, zero, &t);
        }
        for (auto& e : h) {
            Bytes x = e.out;
            for (size_t i = 0; i < x.size(); i++)
                x[i] ^= e.in[i];
            auto it = std::search(ks.begin(), ks.end(), x.begin(), x.end());
            if (it == ks.end())
                viol(strf("use-wrong:process:%s", alg_name(a)), "a call on a shared %s context returned data that no place in its stream gives", alg_name(a));
            e.pos = (size_t) (it - ks.begin());
        }
        std::sort(h.begin(), h.end(), [](const Ev& x, const Ev& y) { return x.pos < y.pos; });
        size_t at = 0;
        Bytes msg;
        for (auto& e : h) {
            if (e.pos != at)
                viol(strf("order:%s", alg_name(a)), "calls on a shared %s context used the stream from %zu on, the last one had ended at %zu", alg_name(a), e.pos, at);
            at += e.in.size();
            app(msg, e.in);
        }
        judge_order(h, alg_name(a));
        if (finish) {
            app(msg, last.in);
            Bytes t, ct = ref_gcm_enc(key, p.iv, p.aad, msg, &t);
            if (t != tag || Bytes(ct.end() - (long) last.in.size(), ct.end()) != last.out)
                viol("use-wrong:process_last:GCM", "the tag of a shared context is not that of the data it processed");
        }
    }
    SA(s, crypto_cipher_release, c);
    cov(strf("shared:%s", alg_name(a)));
}

// ---- one MAC context
bool mac_order(const std::vector<Ev>& h, std::vector<char>& used, Bytes& msg, size_t done, const std::function<bool(const Bytes&)>& ok) {
    if (done == h.size())
        return ok(msg);
    for (size_t i = 0; i < h.size(); i++) {
        if (used[i])
            continue;
        bool first = true;   // of those left, none returned before this one was called
        for (size_t j = 0; j < h.size() && first; j++)
            first = used[j] || j == i || h[j].ret >= h[i].call;
        if (!first)
            continue;
        used[i] = 1;
        app(msg, h[i].in);
        if (mac_order(h, used, msg, done + 1, ok))
            return true;
        msg.resize(msg.size() - h[i].in.size());
        used[i] = 0;
    }
    return false;
}
void m_mac(Rng& r) {
    Sess s(r.chance(80));
    bool cmac = r.coin();
    Bytes key = r.bytes(16);
    sa_rights ra = rights_all();
    sa_key k = must_sym(s, key, &ra);
    sa_mac_parameters_hmac ph = {SA_DIGEST_ALGORITHM_SHA256};
    sa_crypto_mac_context c = INVALID_HANDLE;
    HCHECK(SA(s, crypto_mac_init, &c, cmac ? SA_MAC_ALGORITHM_CMAC : SA_MAC_ALGORITHM_HMAC, k, cmac ? nullptr : &ph) == SA_STATUS_OK);
    size_t nt = r.range(2, 4), n = 2, computes = r.range(1, 2);
    std::vector<std::vector<Ev>> hs(nt);
    std::vector<Ev> ends(nt);
    std::vector<std::function<void(Rng&)>> jobs;
    for (size_t t = 0; t < nt; t++)
        jobs.push_back([&, t](Rng& q) {
            for (size_t i = 0; i < n; i++) {
                Ev e{(int) t, 0, 0, SA_STATUS_OK, q.bytes(q.range(1, 40)), {}};
                GBuf in(e.in);
                e.call = now();
                e.st = SA(s, crypto_mac_process, c, in.p, in.n);
                e.ret = now();
                hs[t].push_back(e);
            }
            if (t < computes) {
                GBuf o(64);
                size_t len = o.n;
                Ev& e = ends[t];
                e.thread = (int) t;
                e.call = now();
                e.st = SA(s, crypto_mac_compute, o.p, &len, c);
                e.ret = now();
                if (e.st == SA_STATUS_OK)
                    e.out = o.get(0, len);
            }
        });
    together(r, jobs);
    const Ev* end = nullptr;
    for (size_t t = 0; t < computes; t++)
        if (ends[t].st == SA_STATUS_OK) {
            if (end)
                viol("twice:compute", "two threads both computed the MAC of one context");
            end = &ends[t];
        }
    if (!end)
        viol("use-refused:compute", "no thread could compute the MAC of a shared context");
    std::vector<Ev> h;
    for (auto& x : hs)
        for (auto& e : x) {
            if (e.st == SA_STATUS_OK) {
                if (e.call > end->ret)
                    viol("after-end:mac_process", "a MAC context took data after its MAC was computed");
                h.push_back(e);
            } else if (e.ret < end->call)
                viol("use-refused:mac_process", "feeding a live shared MAC context gave %s", status_name(e.st));
        }
    std::vector<char> used(h.size());
    Bytes msg;
    auto ok = [&](const Bytes& m) { return (cmac ? ref_cmac(key, m) : ref_hmac(SA_DIGEST_ALGORITHM_SHA256, key, m)) == end->out; };
    if (!mac_order(h, used, msg, 0, ok))
        viol(strf("order:%s", cmac ? "CMAC" : "HMAC"), "the MAC of a shared context is that of no order of the %zu calls that fed it", h.size());
    nontrivial(history_hash(h));
    cov("overlapping-calls", overlaps(h));
    SA(s, crypto_mac_release, c);
    SA(s, key_release, k);
    cov(cmac ? "shared:CMAC" : "shared:HMAC");
}

// ---- SVP buffers written, copied and compared by several threads: never half of one value and half of another
void m_svp(Rng& r) {
    bool direct = r.chance(80);
    Sess s(direct, !direct || r.coin() ? UUID_REE : mk_uuid(9));
    size_t n = r.range(16, 200), nt = r.range(2, 5), steps = r.range(4, 12);
    GBuf ma(n, 1), mb(n, 2);
    sa_svp_buffer b[2];
    HCHECK(SA(s, svp_buffer_create, &b[0], ma.p, n) == SA_STATUS_OK && SA(s, svp_buffer_create, &b[1], mb.p, n) == SA_STATUS_OK);
    std::vector<std::unique_ptr<GBuf>> mc;
    std::vector<sa_svp_buffer> own(nt);
    for (size_t t = 0; t < nt; t++) {
        mc.emplace_back(new GBuf(n, 1));
        HCHECK(SA(s, svp_buffer_create, &own[t], mc[t]->p, n) == SA_STATUS_OK);
    }
    // two more, deciphered to and fro: what they hold in the end depends on the order, that they can be used does not
    GBuf mx(n, 3), my(n, 4);
    sa_svp_buffer x[2];
    HCHECK(SA(s, svp_buffer_create, &x[0], mx.p, n) == SA_STATUS_OK && SA(s, svp_buffer_create, &x[1], my.p, n) == SA_STATUS_OK);
    sa_rights ra = rights_all();
    sa_key key = must_sym(s, r.bytes(16), &ra);
    std::vector<sa_crypto_cipher_context> ctx(nt);
    for (auto& c : ctx) {
        CParams p;
        cparams_rand(p, r, SA_CIPHER_ALGORITHM_AES_CTR);
        HCHECK(cinit(s, &c, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, key, p) == SA_STATUS_OK);
    }
    std::vector<std::vector<Ev>> hs(nt);
    std::vector<std::function<void(Rng&)>> jobs;
    auto uniform = [&](const Bytes& v, const char* what) {
        for (auto x : v)
            if (x != v[0])
                viol(strf("torn:%s", what), "%s shows parts of two writes: %s", what, hex(v).c_str());
    };
    for (size_t t = 0; t < nt; t++)
        jobs.push_back([&, t](Rng& q) {
            for (size_t i = 0; i < steps; i++) {
                size_t w = q.below(2);
                sa_svp_offset off = {0, 0, n};
                sa_status st;
                Ev e{(int) t, now(), 0, SA_STATUS_OK, {}, {}};
                const char* fn;
                switch (q.below(6)) {
                    case 4: {
                        sa_buffer ib = svp_buf(x[w], 0), ob = svp_buf(x[1 - w], 0);
                        size_t len = n;
                        st = SA(s, crypto_cipher_process, &ob, ctx[t], &ib, &len);
                        fn = "decipher";
                        break;
                    }
                    case 5: {
                        sa_buffer ib = svp_buf(x[w], 0), ob = svp_buf(x[1 - w], 0);
                        sa_subsample_length sub = {n / 2, n - n / 2};
                        Bytes iv = q.bytes(16);
                        sa_sample sm = {iv.data(), 16, 0, 0, 1, &sub, ctx[t], &ob, &ib};
                        st = SA(s, process_common_encryption, 1, &sm);
                        fn = "sample";
                        break;
                    }
                    case 0: {
                        GBuf v(n, (int) (16 + t * 40 + i));
                        st = SA(s, svp_buffer_write, b[w], v.p, n, &off, 1);
                        fn = "write";
                        break;
                    }
                    case 1:
                        st = SA(s, svp_buffer_copy, b[w], b[1 - w], &off, 1);
                        fn = "copy";
                        break;
                    case 2: {
                        st = SA(s, svp_buffer_copy, own[t], b[w], &off, 1);
                        fn = "copy out";
                        if (st == SA_STATUS_OK)
                            uniform(mc[t]->get(), "a copy of a shared SVP buffer");
                        break;
                    }
                    default: {
                        Bytes guess(n, (uint8_t) (16 + q.below(nt) * 40 + q.below(steps)));
                        Bytes d = ref_digest(SA_DIGEST_ALGORITHM_SHA256, guess);
                        st = s.uuid == UUID_REE ? SA_STATUS_OK : SA(s, svp_buffer_check, b[w], 0, n, SA_DIGEST_ALGORITHM_SHA256, d.data(), d.size());
                        if (st == SA_STATUS_VERIFICATION_FAILED)
                            st = SA_STATUS_OK;
                        fn = "check";
                    }
                }
                e.ret = now();
                hs[t].push_back(e);
                cov(strf("shared:svp-%s", fn));
                if (st != SA_STATUS_OK)
                    viol(strf("use-refused:svp %s", fn), "%s on a live shared SVP buffer gave %s", fn, status_name(st));
            }
        });
    together(r, jobs);
    uniform(ma.get(), "a shared SVP buffer");
    uniform(mb.get(), "a shared SVP buffer");
    std::vector<Ev> h;
    for (auto& x : hs)
        h.insert(h.end(), x.begin(), x.end());
    nontrivial(history_hash(h));
    cov("overlapping-calls", overlaps(h));
    void* m;
    size_t z;
    SA(s, svp_buffer_release, &m, &z, b[0]);
    SA(s, svp_buffer_release, &m, &z, b[1]);
    for (auto o : own)
        SA(s, svp_buffer_release, &m, &z, o);
    for (auto o : x)
        SA(s, svp_buffer_release, &m, &z, o);
    for (auto c : ctx)
        SA(s, crypto_cipher_release, c);
    SA(s, key_release, key);
    cov("shared:SVP");
}

// ---- uses while an object, or its session, goes away
struct Probe {   // an object whose uses do not depend on one another
    OT type;
    sa_handle h = INVALID_HANDLE;
    Bytes key;
    sa_key k = INVALID_HANDLE;
    std::unique_ptr<GBuf> mem;
    sa_status make(Sess& s, Rng& r, OT t) {
        type = t;
        key = r.bytes(16);
        sa_rights ra = rights_all();
        CParams p;
        switch (t) {
            case O_KEY: return imp_sym(s, &h, key.data(), 16, &ra);
            case O_CIPHER:
                k = must_sym(s, key, &ra);
                return cinit(s, &h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, k, p);
            case O_MAC:
                k = must_sym(s, key, &ra);
                return SA(s, crypto_mac_init, &h, SA_MAC_ALGORITHM_CMAC, k, nullptr);
            default:
                mem.reset(new GBuf(48, 7));
                return SA(s, svp_buffer_create, &h, mem->p, mem->n);
        }
    }
    sa_status use(Sess& s, Rng& q) {   // results of successful uses are right
        GBuf o(64);
        size_t n = o.n;
        switch (type) {
            case O_KEY: {
                if (q.coin()) {
                    Bytes in = q.bytes(20), m;
                    sa_status st = hmac_of(s, h, SA_DIGEST_ALGORITHM_SHA1, in, &m);
                    if (st == SA_STATUS_OK && m != ref_hmac(SA_DIGEST_ALGORITHM_SHA1, key, in))
                        viol("use-wrong:hmac", "a key being released gave a wrong MAC");
                    return st;
                }
                Bytes d;
                sa_status st = key_digest(s, h, SA_DIGEST_ALGORITHM_SHA256, &d);
                if (st == SA_STATUS_OK && d != ref_digest(SA_DIGEST_ALGORITHM_SHA256, key))
                    viol("use-wrong:digest", "a key being released gave a wrong digest");
                return st;
            }
            case O_CIPHER: {
                Bytes in = q.bytes(32);
                sa_buffer ib = clear_buf(in.data(), in.size()), ob = clear_buf(o.p, o.n);
                n = 32;
                sa_status st = SA(s, crypto_cipher_process, &ob, h, &ib, &n);
                if (st == SA_STATUS_OK && (n != 32 || o.get(0, 32) != ref_ecb(key, in, true)))
                    viol("use-wrong:process", "a context being released gave wrong data");
                return st;
            }
            case O_MAC: {
                Bytes in = q.bytes(5);
                return SA(s, crypto_mac_process, h, in.data(), in.size());
            }
            default: {
                sa_svp_offset off = {0, 0, 48};
                Bytes d = ref_digest(SA_DIGEST_ALGORITHM_SHA256, Bytes(48, 7));
                if (q.coin() && s.uuid != UUID_REE) {
                    sa_status st = SA(s, svp_buffer_check, h, 0, 48, SA_DIGEST_ALGORITHM_SHA256, d.data(), d.size());
                    return st;
                }
                Bytes v(48, 7);
                return SA(s, svp_buffer_write, h, v.data(), 48, &off, 1);
            }
        }
    }
    sa_status release(Sess& s) {
        void* m;
        size_t z;
        switch (type) {
            case O_KEY: return SA(s, key_release, h);
            case O_CIPHER: return SA(s, crypto_cipher_release, h);
            case O_MAC: return SA(s, crypto_mac_release, h);
            default: return SA(s, svp_buffer_release, &m, &z, h);
        }
    }
};
// what a use or release of a handle that is not live gives
sa_status dead_status(Sess& s, Rng& r, OT t, bool release) {
    Probe p;
    HCHECK(p.make(s, r, t) == SA_STATUS_OK);
    sa_status st = p.release(s);
    HCHECK(st == SA_STATUS_OK);
    st = release ? p.release(s) : p.use(s, r);
    if (p.k != INVALID_HANDLE)
        SA(s, key_release, p.k);
    return st;
}
void m_release(Rng& r) {
    bool direct = r.chance(80);
    Sess s(direct, !direct || r.coin() ? UUID_REE : mk_uuid(9));
    OT t = (OT) r.below(4);
    sa_status dead_use = dead_status(s, r, t, false), dead_release = dead_status(s, r, t, true);
    Probe p;
    HCHECK(p.make(s, r, t) == SA_STATUS_OK);
    size_t users = r.range(1, 3), releasers = r.range(1, 3);
    bool creators = r.chance(30);
    std::vector<Ev> rel(releasers);
    std::vector<std::vector<Ev>> uses(users);
    std::vector<std::function<void(Rng&)>> jobs;
    for (size_t i = 0; i < users; i++)
        jobs.push_back([&, i](Rng& q) {
            for (int k = 0; k < 30; k++) {
                Ev e{(int) i, now(), 0, SA_STATUS_OK, {}, {}};
                e.st = p.use(s, q);
                e.ret = now();
                uses[i].push_back(e);
                if (e.st != SA_STATUS_OK)
                    break;
            }
        });
    if (creators)   // others come and go meanwhile, of a kind that cannot be given the handle being released
        jobs.push_back([&](Rng& q) {
            for (int k = 0; k < 8; k++) {
                auto o = obj_create(s, q, t == O_SVP ? O_MAC : O_SVP);
                o->use(s, q);
                o->release(s);
            }
        });
    for (size_t i = 0; i < releasers; i++)
        jobs.push_back([&, i](Rng& q) {
            usleep((useconds_t) q.below(200));
            rel[i] = Ev{(int) (users + i), now(), 0, SA_STATUS_OK, {}, {}};
            rel[i].st = p.release(s);
            rel[i].ret = now();
        });
    together(r, jobs);
    const Ev* win = nullptr;
    for (auto& e : rel)
        if (e.st == SA_STATUS_OK) {
            if (win)
                viol(strf("twice:release:%s", ot_name(t)), "two threads both released one %s", ot_name(t));
            win = &e;
        }
    if (!win)
        viol(strf("use-refused:release:%s", ot_name(t)), "no thread could release a live %s", ot_name(t));
    for (auto& e : rel)
        if (e.st != SA_STATUS_OK && e.st != dead_release)
            viol(strf("status:release:%s", ot_name(t)), "a second release of a %s gave %s, after the first it gives %s", ot_name(t), status_name(e.st), status_name(dead_release));
        else if (e.st != SA_STATUS_OK && e.ret < win->call)
            viol(strf("use-refused:release:%s", ot_name(t)), "releasing a live %s gave %s", ot_name(t), status_name(e.st));
    std::vector<Ev> all(rel);
    for (auto& u : uses)
        for (auto& e : u) {
            all.push_back(e);
            if (e.st == SA_STATUS_OK && e.call > win->ret)
                viol(strf("after-release:%s", ot_name(t)), "a %s was used after its release had returned", ot_name(t));
            if (e.st != SA_STATUS_OK && e.ret < win->call)
                viol(strf("use-refused:%s", ot_name(t)), "a use of a live %s gave %s", ot_name(t), status_name(e.st));
            if (e.st != SA_STATUS_OK && e.st != dead_use)
                viol(strf("status:use:%s", ot_name(t)), "use of a %s being released gave %s; released it gives %s", ot_name(t), status_name(e.st), status_name(dead_use));
            cov(e.st == SA_STATUS_OK ? "release:use-before" : "release:use-after");
        }
    nontrivial(history_hash(all));
    cov("overlapping-calls", overlaps(all));
    if (p.k != INVALID_HANDLE)
        SA(s, key_release, p.k);
    cov(strf("released:%s", ot_name(t)));
}
void m_close(Rng& r) {
    uint64_t live = ta_live_blocks();
    {
        Sess s(true, mk_uuid(9));
        std::vector<Probe> ps(4);
        sa_status dead[4];
        {
            Sess d(true, mk_uuid(9));
            for (int i = 0; i < 4; i++)
                HCHECK(ps[(size_t) i].make(d, r, (OT) i) == SA_STATUS_OK);
            d.close();
            for (int i = 0; i < 4; i++)
                dead[i] = ps[(size_t) i].use(d, r);
        }
        for (int i = 0; i < 4; i++)
            HCHECK(ps[(size_t) i].make(s, r, (OT) i) == SA_STATUS_OK);
        size_t users = r.range(1, 4);
        Ev close{99, 0, 0, SA_STATUS_OK, {}, {}};
        std::vector<std::vector<std::pair<Ev, OT>>> uses(users);
        std::vector<std::function<void(Rng&)>> jobs;
        for (size_t i = 0; i < users; i++)
            jobs.push_back([&, i](Rng& q) {
                for (int k = 0; k < 40; k++) {
                    OT t = (OT) q.below(4);
                    Ev e{(int) i, now(), 0, SA_STATUS_OK, {}, {}};
                    e.st = ps[t].use(s, q);
                    e.ret = now();
                    uses[i].push_back({e, t});
                    if (e.st != SA_STATUS_OK)
                        break;
                }
            });
        if (r.coin())   // other sessions come and go (under another caller, so that the slot means nothing to the users)
            jobs.push_back([&](Rng& q) {
                for (int k = 0; k < 3; k++) {
                    Sess x(true, mk_uuid(11));
                    obj_create(x, q, O_KEY)->use(x, q);
                }
            });
        jobs.push_back([&](Rng& q) {
            usleep((useconds_t) q.below(400));
            close.call = now();
            before_call(true, s.uuid);
            close.st = after_call("close", ta_sa_close(s.slot, &s.uuid));
            close.ret = now();
        });
        s.open = false;
        together(r, jobs);
        if (close.st != SA_STATUS_OK)
            viol("use-refused:close", "closing a session gave %s", status_name(close.st));
        std::vector<Ev> all{close};
        for (auto& u : uses)
            for (auto& x : u) {
                const Ev& e = x.first;
                all.push_back(e);
                if (e.st == SA_STATUS_OK && e.call > close.ret)
                    viol(strf("after-close:%s", ot_name(x.second)), "a %s was used after its session had been closed", ot_name(x.second));
                if (e.st != SA_STATUS_OK && e.ret < close.call)
                    viol(strf("use-refused:%s", ot_name(x.second)), "a use in an open session gave %s", status_name(e.st));
                if (e.st != SA_STATUS_OK && e.st != dead[x.second] && e.st != SA_STATUS_OPERATION_NOT_ALLOWED)
                    viol(strf("status:close:%s", ot_name(x.second)), "use in a session being closed gave %s; closed it gives %s", status_name(e.st), status_name(dead[x.second]));
                cov(e.st == SA_STATUS_OK ? "close:use-before" : "close:use-after");
            }
        nontrivial(history_hash(all));
        cov("overlapping-calls", overlaps(all));
    }
    if (ta_live_blocks() != live)
        viol("memory-held:close", "%" PRIu64 " TA blocks before a session was opened, %" PRIu64 " after it was closed while in use", live, ta_live_blocks());
    cov("closed-in-use");
}
// ---- as many creators as fit
void m_fill(Rng& r) {
    Sess s(true, mk_uuid(9));
    OT t = (OT) r.below(4);
    Probe base;
    HCHECK(base.make(s, r, O_KEY) == SA_STATUS_OK);
    GBuf mem(16);
    sa_rights ra = rights_all();
    auto make = [&](Rng&, sa_handle* h) {
        CParams p;
        switch (t) {
            case O_KEY: return imp_sym(s, h, base.key.data(), 16, &ra);
            case O_CIPHER: return cinit(s, h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, base.h, p);
            case O_MAC: return SA(s, crypto_mac_init, h, SA_MAC_ALGORITHM_CMAC, base.h, nullptr);
            default: return SA(s, svp_buffer_create, h, mem.p, mem.n);
        }
    };
    auto drop = [&](sa_handle h) {
        Probe p;
        p.type = t;
        p.h = h;
        return p.release(s);
    };
    std::vector<sa_handle> all;
    size_t room[2];
    for (int round = 0; round < 2; round++) {
        size_t nt = round == 0 ? 1 : r.range(2, 6);
        std::vector<std::vector<sa_handle>> got(nt);
        std::vector<std::function<void(Rng&)>> jobs;
        for (size_t i = 0; i < nt; i++)
            jobs.push_back([&, i](Rng& q) {
                for (;;) {
                    sa_handle h = INVALID_HANDLE;
                    sa_status st = make(q, &h);
                    if (st != SA_STATUS_OK) {
                        if (st != SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT)
                            viol(strf("status:full:%s", ot_name(t)), "creating a %s in a full table gave %s", ot_name(t), status_name(st));
                        break;
                    }
                    got[i].push_back(h);
                }
            });
        together(r, jobs);
        std::set<sa_handle> seen;
        room[round] = 0;
        for (auto& g : got)
            for (auto h : g) {
                room[round]++;
                if (!seen.insert(h).second)
                    viol(strf("handle-shared:%s", ot_name(t)), "two threads were given %s handle %lu", ot_name(t), h);
            }
        jobs.clear();
        for (size_t i = 0; i < nt; i++)
            jobs.push_back([&, i](Rng&) {
                for (auto h : got[i])
                    if (drop(h) != SA_STATUS_OK)
                        viol(strf("release-refused:%s", ot_name(t)), "releasing a live %s was refused", ot_name(t));
            });
        together(r, jobs);
    }
    if (room[0] != room[1])
        viol(strf("slots:%s", ot_name(t)), "one thread could create %zu of a %s, several %zu", room[0], ot_name(t), room[1]);
    cov(strf("filled:%s", ot_name(t)));
}
void first_use() {
    Rng r(mix64((uint64_t) getpid(), (uint64_t) now()));
    std::vector<std::function<void(Rng&)>> jobs;
    for (int i = 0; i < 4; i++) {   // the very first calls of the process, by several threads at once
        jobs.push_back([](Rng& q) {
            Sess s(true, UUID_REE);
            Bytes b;
            sa_rights ra = rights_all();
            sa_key k = must_sym(s, q.bytes(16), &ra);
            if (q.coin()) {
                uint64_t id;
                SA(s, get_device_id, &id);
            }
            if (key_export(s, k, nullptr, &b) != SA_STATUS_OK)
                viol("first-use:export", "exporting a key was refused");
            SA(s, key_release, k);
        });
        jobs.push_back([](Rng& q) {
            Sess s(false);
            uint8_t b[16];
            sa_status st = SA(s, crypto_random, b, 16);
            uint64_t id;
            if (st == SA_STATUS_OK && q.coin())
                st = SA(s, get_device_id, &id);
            sa_rights ra = rights_all();
            sa_key k = INVALID_HANDLE;
            if (st == SA_STATUS_OK)
                st = imp_sym(s, &k, b, 16, &ra);
            if (st == SA_STATUS_OK)
                st = SA(s, key_release, k);
            if (st != SA_STATUS_OK)
                viol("first-use:client", "the first calls of the process gave %s", status_name(st));
        });
    }
    together(r, jobs);
}
// Processes that have made no call yet, each to make its first ones from several threads.
void fresh_processes() {
    for (int i = 0; i < (g_thorough ? 40 : 6); i++) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            alarm(60);
            try {
                first_use();
            } catch (CaseAbort&) {
                fflush(nullptr);
                _exit(1);
            }
            fflush(nullptr);
            _exit(0);
        }
        int st = 0;
        if (p < 0 || waitpid(p, &st, 0) != p)
            harness_error("fork");
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1)   // what it printed says why
            _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
        if (WEXITSTATUS(st))
            throw CaseAbort();
        cov("first-use");
    }
    Rng r(1);
    ops_warmup(r);
}
void one(Rng& r, uint64_t index) {
    uint64_t lock0 = w_lock_contended;
    switch (index % 10) {
        case 0: m_own(r, false); break;
        case 1: m_own(r, true); break;
        case 2: case 3: m_cipher(r); break;
        case 4: m_mac(r); break;
        case 5: m_svp(r); break;
        case 6: case 7: m_release(r); break;
        case 8: m_close(r); break;
        default: r.chance(20) ? m_fill(r) : m_release(r); break;
    }
    cov("locks-contended", w_lock_contended - lock0);
    if (index % 40 >= 32 && !last_history.empty())
        sample(strf("case seed %" PRIu64 ", calls (c) and returns (r) by thread, up to the first 300 characters:%s; %" PRIu64 " lock acquisitions so far, %" PRIu64 " contended", g_case_seed,
                last_history.c_str(), (uint64_t) w_lock_events, (uint64_t) w_lock_contended));
}
}   // namespace
Harness harness() {
    return {"2 to 6 threads with random delays around every lock: own objects and common keys, one cipher, MAC or SVP object fed by all, objects released and sessions closed while in "
            "use, full tables, the first calls of a process. Distinct: order of call and return events",
            fresh_processes, one, nullptr};
}
