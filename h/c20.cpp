// C20: failed and repeated operations leave nothing behind; tables fill up cleanly and empty again.
#include "fails.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
int64_t settle() {
    ERR_clear_error();
    return call_live_blocks();
}
// Runs f again and again: if every round leaves blocks behind, what is repeated leaks.
void no_growth(const char* what, const std::function<void()>& f) {
    f();
    int64_t b[4];
    w_call_track = true;
    b[0] = settle();
    for (int i = 1; i < 4; i++) {
        f();
        b[i] = settle();
        if (b[i] <= b[i - 1])
            break;
        if (i == 3) {
            if (getenv("VERIF_ALLOCMAP"))
                ta_live_dump();
            viol(strf("leak:%s", what), "each repetition of %s leaves %" PRId64 " more allocated block(s) behind", what, b[3] - b[2]);
        }
    }
    w_call_track = false;
    cov("growth-measured");
}
void failing(Rng& r, Sess& s) {
    World w(s, r);
    auto& fc = fail_calls();
    size_t steps = r.range(10, 30);
    for (size_t i = 0; i < steps; i++) {
        const FailCall& f = r.pick(fc);
        uint64_t live = ta_live_blocks();
        Rng again = r;
        sa_status st = f.run(w, r);
        trace("%s -> %s", f.name.c_str(), status_name(st));
        if (st == SA_STATUS_OK)
            viol(strf("accepted:%s", f.name.c_str()), "the invalid call %s was accepted", f.name.c_str());
        if (ta_live_blocks() != live)
            viol(strf("memory-held:%s", f.name.c_str()), "%s failed with %s and left TA memory blocks: %" PRIu64 " before, %" PRIu64 " after",
                    f.name.c_str(), status_name(st), live, ta_live_blocks());
        cov(strf("failed:%s:%s", f.name.c_str(), status_name(st)));
        nontrivial(hash_bytes(f.name.data(), f.name.size(), (uint64_t) st));
        if (r.chance(20))
            no_growth(f.name.c_str(), [&] {
                Rng q = again;
                f.run(w, q);
            });
        w.verify(r);
        for (auto* o : {&w.cipher, &w.mac, &w.svp, &w.svp2})
            if (r.chance(30))
                (*o)->use(s, r);
    }
    w.use_all(r);
}
void cycles(Rng& r, Sess& s) {
    KInfo k = make_key(s, r, (KK) r.below(K_COUNT), rights_all());
    if (k.kind == K_DH)
        key_pub(s, k.h, &k.dh_pub);
    auto ov = ops_for(k.kind);
    for (int i = 0; i < 6; i++) {
        const Op& o = *r.pick(ov);
        unsigned mode = (unsigned) r.below(3);
        Rng q = r;
        no_growth(o.name.c_str(), [&] {
            Rng q2 = q;
            OpEnv e{s, q2, k, k.h};
            sa_uuid u = mk_uuid(200);
            if (mode == 1)
                e.as = &u;
            if (mode == 2 && s.direct)
                w_video_on = true, w_video_fail = true;
            sa_status st = run_op(o, e);
            w_video_on = w_video_fail = false;
            if (mode == 0 && st != SA_STATUS_OK)
                viol(strf("use-refused:%s", o.name.c_str()), "a valid %s gave %s when repeated", o.name.c_str(), status_name(st));
            if (mode == 1 && s.direct && st == SA_STATUS_OK)
                viol("other-caller-accepted", "%s", o.name.c_str());
        });
        cov(strf("cycle:%s:%s", o.name.c_str(), mode == 0 ? "valid" : mode == 1 ? "other caller" : "outputs unknown"));
        nontrivial(hash_bytes(o.name.data(), o.name.size(), mode));
    }
    SA(s, key_release, k.h);
    // creating and releasing objects, and whole sessions
    OT t = (OT) r.below(4);
    no_growth(ot_name(t), [&] {
        auto o = obj_create(s, r, t);
        if (o->release(s) != SA_STATUS_OK)
            viol("release-refused", "release of a new %s refused", ot_name(t));
    });
    no_growth("session", [&] {
        Sess x(true, mk_uuid(9));
        auto o = obj_create(x, r, t);
    });
}
// fills one table, checks what happens when it is full, and that every slot comes back
void full(Rng& r, Sess& s) {
    OT t = (OT) r.below(4);
    const size_t N = 256;
    KInfo k = make_key(s, r, K_SYM16, rights_all());   // for contexts
    GBuf mem(64);
    auto create = [&](sa_handle* h) -> sa_status {
        CParams p;
        sa_rights ra = rights_all();
        switch (t) {
            case O_KEY: return imp_sym(s, h, k.mat.data(), k.mat.size(), &ra);
            case O_CIPHER: cparams_rand(p, r, SA_CIPHER_ALGORITHM_AES_CTR); return cinit(s, h, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_ENCRYPT, k.h, p);
            case O_MAC: return SA(s, crypto_mac_init, h, SA_MAC_ALGORITHM_CMAC, k.h, nullptr);
            default: return SA(s, svp_buffer_create, h, mem.p, mem.n);
        }
    };
    auto release = [&](sa_handle h) -> sa_status {
        void* m;
        size_t z;
        switch (t) {
            case O_KEY: return SA(s, key_release, h);
            case O_CIPHER: return SA(s, crypto_cipher_release, h);
            case O_MAC: return SA(s, crypto_mac_release, h);
            default: return SA(s, svp_buffer_release, &m, &z, h);
        }
    };
    std::vector<sa_handle> live;
    auto fill = [&](const char* when) {
        for (;;) {
            sa_handle h = INVALID_HANDLE;
            sa_status st = create(&h);
            if (st == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT)
                break;
            if (st != SA_STATUS_OK)
                viol(strf("full-status:%s", ot_name(t)), "creating %s number %zu %s gave %s", ot_name(t), live.size() + 1, when, status_name(st));
            if (std::find(live.begin(), live.end(), h) != live.end())
                viol(strf("handle-twice:%s", ot_name(t)), "handle %lu was handed out twice (%s)", h, when);
            live.push_back(h);
            if (live.size() > 100000)
                viol("unbounded", "no limit");
        }
    };
    struct Clean {
        std::vector<sa_handle>& l;
        std::function<sa_status(sa_handle)> f;
        ~Clean() {
            for (auto h : l)
                quietly([&] { f(h); });
        }
    } clean{live, release};
    fill("at first");
    size_t cap = live.size();
    if (cap + (t == O_KEY) != N)
        viol(strf("capacity:%s", ot_name(t)), "a new session took %zu objects of type %s, the table has %zu slots", cap, ot_name(t), N);
    for (int round = 0; round < 3; round++) {
        // while full: every creating operation is refused, leaks nothing, and what exists works
        uint64_t before = ta_live_blocks();
        for (int i = 0; i < 3; i++) {
            sa_handle h = INVALID_HANDLE;
            sa_status st = create(&h);
            if (st != SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT)
                viol(strf("full-status:%s", ot_name(t)), "creating a %s in a full table gave %s", ot_name(t), status_name(st));
        }
        if (t == O_KEY) {
            const Op* o;
            auto ov = ops_for(K_SYM16);
            do
                o = r.pick(ov);
            while (!o->creates || o->name.rfind("typej", 0) == 0 || o->name.find("netflix") != std::string::npos ||
                    o->name.find("NETFLIX") != std::string::npos);
            OpEnv e{s, r, k, k.h};
            e.check_leak = true;
            sa_status st = run_op(*o, e);
            if (st != SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT)
                viol(strf("full-status:%s", o->name.c_str()), "%s with a full key table gave %s", o->name.c_str(), status_name(st));
            cov(strf("full:%s", o->name.c_str()));
        }
        if (ta_live_blocks() != before)
            viol(strf("memory-held:full:%s", ot_name(t)), "refused creations left memory held");
        // release some and create as many again
        size_t n = round == 2 ? live.size() : r.range(1, live.size());
        uint64_t each = ta_live_blocks();
        for (size_t i = 0; i < n; i++) {
            size_t x = r.below(live.size());
            sa_status st = release(live[x]);
            if (st != SA_STATUS_OK)
                viol(strf("release-refused:%s", ot_name(t)), "release of handle %lu gave %s", live[x], status_name(st));
            live[x] = live.back();
            live.pop_back();
        }
        if (ta_live_blocks() >= each)
            viol(strf("memory-held:release:%s", ot_name(t)), "releases gave no memory back");
        fill("after releases");
        if (live.size() != cap)
            viol(strf("slots-lost:%s", ot_name(t)), "%zu slots were there, %zu after releasing and creating again", cap, live.size());
        // one still works
        uint8_t b[16] = {1};
        size_t len = 16;
        sa_handle h = r.pick(live);
        sa_status st = SA_STATUS_OK;
        GBuf i(16), o(16);
        sa_buffer ib = clear_buf(i.p, 16), ob = clear_buf(o.p, 16);
        sa_header hd;
        sa_svp_offset of = {0, 0, 16};
        switch (t) {
            case O_KEY: st = SA(s, key_header, &hd, h); break;
            case O_CIPHER: st = SA(s, crypto_cipher_process, &ob, h, &ib, &len); break;
            case O_MAC: st = SA(s, crypto_mac_process, h, b, 16); break;
            default: st = SA(s, svp_buffer_write, h, b, 16, &of, 1); break;
        }
        if (st != SA_STATUS_OK)
            viol(strf("use-refused:full:%s", ot_name(t)), "using handle %lu of a full table gave %s", h, status_name(st));
    }
    cov(strf("filled:%s", ot_name(t)));
    nontrivial(mix64((uint64_t) t, r.s));
    for (auto h : live)
        if (release(h) != SA_STATUS_OK)
            viol(strf("release-refused:%s", ot_name(t)), "release at the end refused");
    live.clear();
    SA(s, key_release, k.h);
}
void sessions(Rng& r) {
    std::vector<std::unique_ptr<Sess>> v;
    uint64_t before = ta_live_blocks();
    auto open_all = [&] {
        for (;;) {
            auto s = std::make_unique<Sess>(true, mk_uuid((uint8_t) r.below(6)));
            s->close();
            sa_status st = ta_sa_init(&s->slot, &s->uuid);
            if (st == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT)
                return;
            if (st != SA_STATUS_OK)
                viol("full-status:session", "opening session number %zu gave %s", v.size() + 1, status_name(st));
            s->open = true;
            for (auto& x : v)
                if (x->slot == s->slot)
                    viol("handle-twice:session", "slot %u twice", s->slot);
            v.push_back(std::move(s));
            if (v.size() == 255)   // the last one: Sess cannot be made with none left
                break;
        }
        sa_uuid u = mk_uuid(3);
        ta_client c;
        sa_status st;
        size_t extra = 0;
        std::vector<ta_client> more;
        while ((st = ta_sa_init(&c, &u)) == SA_STATUS_OK && extra < 10) {
            more.push_back(c);
            extra++;
        }
        if (st != SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT)
            viol("full-status:session", "opening a session with a full table gave %s", status_name(st));
        for (auto x : more)
            ta_sa_close(x, &u);
    };
    open_all();
    size_t cap = v.size();
    for (int i = 0; i < 3; i++) {
        size_t n = r.range(1, v.size());
        while (n--) {
            size_t x = r.below(v.size());
            v[x]->close();
            v.erase(v.begin() + (long) x);
        }
        open_all();
        if (v.size() != cap)
            viol("slots-lost:session", "%zu sessions were possible, then %zu", cap, v.size());
    }
    Sess& s = *r.pick(v);
    auto o = obj_create(s, r, O_KEY);
    o->use(s, r);
    v.clear();
    if (ta_live_blocks() != before)
        viol("memory-held:sessions", "closed sessions left memory: %" PRIu64 " blocks before, %" PRIu64 " after", before, ta_live_blocks());
    cov("filled:sessions");
    nontrivial(r.s);
}
void one(Rng& r, uint64_t index) {
    bool client = index % 5 == 0;
    switch (index % 100) {
        case 7: sessions(r); return;
        case 11: case 23: case 37: case 53: case 61: case 79: case 85: case 90: {
            if (client) {   // a session of the client library cannot be emptied: other cases' objects are released, so it is
                Sess s(false);
                full(r, s);
            } else {
                Sess s(true, r.coin() ? UUID_REE : mk_uuid(4));
                full(r, s);
            }
            return;
        }
    }
    uint64_t before = ta_live_blocks();
    {
        Sess s(!client, client || r.coin() ? UUID_REE : mk_uuid(5));
        if (index % 2)
            failing(r, s);
        else
            cycles(r, s);
    }
    if (ta_live_blocks() != before)
        viol("memory-held:case", "TA memory blocks before: %" PRIu64 ", after everything was released: %" PRIu64, before, ta_live_blocks());
    if (index % 1000 == 1)
        sample(strf("case seed %" PRIu64, g_case_seed));
}
}   // namespace
Harness harness() {
    return {"failing calls of every kind (about 120 sorts) on sessions whose objects are compared with models; repetition of every operation, "
            "valid and refused, with all allocations made inside calls tracked; tables filled, partly released and refilled. Distinct: failing "
            "call and status, operation and mode, tables",
            init, one, nullptr};
}
