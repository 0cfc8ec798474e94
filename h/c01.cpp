// C01: nothing made in one session is reachable from another session or by another caller.
#include "objs.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
struct Slot {
    std::unique_ptr<Sess> s;
    std::vector<std::unique_ptr<Obj>> objs;
    ~Slot() {   // the client library's session outlives the case
        if (s && !s->direct)
            for (auto& o : objs)
                quietly([&] { o->release(*s); });
    }
};
bool live_in(const Slot& sl, const Obj& o) {
    for (auto& x : sl.objs)
        if (x->type == o.type && x->h == o.h)
            return true;
    return false;
}
sa_uuid other_uuid(Rng& r, const sa_uuid& u) {
    sa_uuid x = u;
    switch (r.below(4)) {
        case 0: x.id[r.below(16)] ^= (uint8_t) (1u << r.below(8)); break;
        case 1: r.fill(x.id, 16); break;
        case 2: x = UUID_ALL; break;
        default: x = UUID_REE; x.id[15] ^= 3; break;
    }
    if (x == u)
        x.id[7] ^= 1;
    return x;
}
void one(Rng& r, uint64_t index) {
    size_t n = r.range(2, 4);
    std::vector<Slot> sl(n);
    bool client = index % 4 == 0;
    sa_uuid shared = mk_uuid(77);
    for (size_t i = 0; i < n; i++)
        sl[i].s.reset(client && i == 0 ? new Sess(false) : new Sess(true, r.coin() ? shared : r.coin() ? UUID_REE : mk_uuid((uint8_t) i)));
    size_t steps = r.range(10, g_thorough ? 80 : 40);
    uint64_t sig = n;
    for (size_t step = 0; step < steps; step++) {
        Slot& a = sl[r.below(n)];
        if (!a.s->open) {
            a.s.reset(new Sess(true, mk_uuid((uint8_t) r.below(5))));
            trace("session opened again");
            continue;
        }
        if (a.objs.empty() || (a.objs.size() < 6 && r.chance(30))) {
            auto o = obj_create(*a.s, r, (OT) r.below(4));
            for (auto& x : a.objs)
                if (x->type == o->type && x->h == o->h)
                    viol("handle-twice", "a new %s got the handle %lu of a live one", ot_name(o->type), o->h);
            trace("session %zu: %s is %s handle %lu", (size_t) (&a - &sl[0]), o->what.c_str(), ot_name(o->type), o->h);
            a.objs.push_back(std::move(o));
            continue;
        }
        size_t oi = r.below(a.objs.size());
        Obj& o = *a.objs[oi];
        switch (r.below(8)) {
            case 0:
                o.use(*a.s, r);
                break;
            case 1: {   // released by the owner
                o.finish(*a.s, r);
                sa_status st = o.release(*a.s);
                if (st != SA_STATUS_OK)
                    viol(strf("release-refused:%s", ot_name(o.type)), "release by the owner gave %s", status_name(st));
                a.objs.erase(a.objs.begin() + (long) oi);
                continue;
            }
            case 2:
            case 3:
            case 4: {   // the same session, another caller
                sa_uuid u = other_uuid(r, a.s->uuid);
                if (o.type == O_CIPHER || o.type == O_MAC || o.type == O_KEY || o.type == O_SVP)
                    o.attack(*a.s, r, &u, "other-caller");
                sig = mix64(sig, (uint64_t) o.type * 4 + 1);
                break;
            }
            case 5:
            case 6: {   // another session, of the same or another caller
                Slot& b = sl[r.below(n)];
                if (&b == &a || !b.s->open || live_in(b, o))
                    continue;
                o.attack(*b.s, r, nullptr, b.s->uuid == a.s->uuid ? "other-session" : "other-session-and-caller");
                sig = mix64(sig, (uint64_t) o.type * 4 + 2);
                break;
            }
            default: {   // another session closes; what is left must be unaffected
                if (!r.chance(30))
                    continue;
                Slot& b = sl[r.below(n)];
                if (&b == &a || !b.s->direct || !b.s->open)
                    continue;
                b.objs.clear();
                b.s->close();
                cov("session-closed");
                sig = mix64(sig, 999);
                break;
            }
        }
        // the owner's object is as it was
        o.verify(*a.s, r);
        if (r.coin())
            o.use(*a.s, r);
    }
    // a caller cannot close another's session, and a session that is closed is gone
    for (auto& x : sl)
        if (x.s->direct && x.s->open && r.chance(30)) {
            sa_uuid u = other_uuid(r, x.s->uuid);
            if (ta_sa_close(x.s->slot, &u) == SA_STATUS_OK)
                viol("other-caller-accepted:close", "another caller closed the session");
            for (auto& o : x.objs)
                o->use(*x.s, r);
            cov("other-caller:close");
        }
    for (auto& x : sl) {
        if (!x.s->open)
            continue;
        for (auto& o : x.objs) {
            o->use(*x.s, r);
            o->finish(*x.s, r);
            if (o->release(*x.s) != SA_STATUS_OK)
                viol(strf("release-refused:%s", ot_name(o->type)), "release by the owner at the end failed");
        }
        x.objs.clear();
    }
    nontrivial(sig);
    if (index % 1000 == 0)
        sample(strf("case seed %" PRIu64 ": %zu sessions, %zu steps", g_case_seed, n, steps));
}
}   // namespace
Harness harness() {
    return {"random histories over two to four sessions (same or different callers, one possibly through the client library) holding keys, "
            "cipher, MAC and SVP handles; every operation is tried through other sessions and under other callers between uses by the "
            "owner, whose results are compared with a model; sessions close and reopen. Distinct: sequence of object types attacked and "
            "closes",
            init, one, nullptr};
}
