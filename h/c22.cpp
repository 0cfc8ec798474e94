// C22: released handles are dead, releasing and closing disturb nothing else and give everything back.
#include "objs.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
typedef std::vector<std::unique_ptr<Obj>> Objs;
bool live(const Objs& v, OT t, sa_handle h) {
    for (auto& x : v)
        if (x->type == t && x->h == h)
            return true;
    return false;
}
void check_new(const Objs& v, const Obj& o) {
    if (live(v, o.type, o.h))
        viol("handle-twice", "a new %s got the handle %lu of a live one", ot_name(o.type), o.h);
}
// every kind of call through a session that is gone
void closed_session(Sess& s, Rng& r, const Objs& dead) {
    auto must_fail = [&](sa_status st, const char* fn) {
        if (st == SA_STATUS_OK)
            viol(strf("after-close-accepted:%s", fn), "%s through a closed session was accepted", fn);
        cov(strf("after-close:%s", fn));
    };
    for (auto& o : dead) {
        uint8_t b[64] = {0};
        size_t n = sizeof b;
        sa_handle h = INVALID_HANDLE;
        must_fail(o->release(s), strf("release:%s", ot_name(o->type)).c_str());
        switch (o->type) {
            case O_KEY: {
                sa_header hd;
                must_fail(SA(s, key_header, &hd, o->h), "key_header");
                n = 64;
                must_fail(SA(s, key_digest, b, &n, o->h, SA_DIGEST_ALGORITHM_SHA256), "key_digest");
                must_fail(SA(s, crypto_cipher_init, &h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, o->h, nullptr), "cipher_init");
                break;
            }
            case O_CIPHER: {
                sa_buffer ob = clear_buf(b, 32), ib = clear_buf(b + 32, 32);
                n = 16;
                must_fail(SA(s, crypto_cipher_process, &ob, o->h, &ib, &n), "cipher_process");
                break;
            }
            case O_MAC:
                must_fail(SA(s, crypto_mac_process, o->h, b, 8), "mac_process");
                must_fail(SA(s, crypto_mac_compute, b, &n, o->h), "mac_compute");
                break;
            default: {
                sa_svp_offset of = {0, 0, 8};
                must_fail(SA(s, svp_buffer_write, o->h, b, sizeof b, &of, 1), "svp_write");
                o->verify(s, r);
            }
        }
    }
    sa_handle k = INVALID_HANDLE;
    sa_rights ra = rights_all();
    Bytes m = r.bytes(16);
    must_fail(imp_sym(s, &k, m.data(), 16, &ra), "key_import");
    must_fail(ta_sa_close(s.slot, &s.uuid), "close");
}
void one(Rng& r, uint64_t index) {
    bool client = index % 4 == 0;
    uint64_t blocks0 = ta_live_blocks();
    auto s = std::make_unique<Sess>(!client, client ? UUID_REE : r.coin() ? UUID_REE : mk_uuid((uint8_t) r.below(4)));
    Sess bystander(true, mk_uuid(60));
    Objs other, v, dead;
    struct Guard {
        Objs& v;
        std::unique_ptr<Sess>& s;
        ~Guard() {
            if (s && !s->direct)
                for (auto& o : v)
                    quietly([&] { o->release(*s); });
        }
    } guard{v, s};
    for (int t = 0; t < 4; t++)
        other.push_back(obj_create(bystander, r, (OT) t));
    size_t steps = r.range(8, g_thorough ? 80 : 30);
    uint64_t sig = 0;
    for (size_t i = 0; i < steps; i++) {
        unsigned w = (unsigned) r.below(10);
        if (v.empty() || (w < 3 && v.size() < 10)) {
            auto o = obj_create(*s, r, (OT) r.below(4));
            check_new(v, *o);
            bool reused = false;
            for (size_t d = 0; d < dead.size();)
                if (dead[d]->type == o->type && dead[d]->h == o->h) {
                    dead.erase(dead.begin() + (long) d);
                    reused = true;
                } else
                    d++;
            if (reused) {   // nothing of the old object is left
                o->verify(*s, r);
                o->use(*s, r);
                cov(strf("slot-reused:%s", ot_name(o->type)));
            }
            v.push_back(std::move(o));
        } else if (w < 5) {
            size_t oi = r.below(v.size());
            Obj& o = *v[oi];
            // a context made from this key outlives it
            const KInfo* ki = obj_key_info(o);
            std::unique_ptr<Obj> ctx;
            if (ki && (ki->kind == K_SYM16 || ki->kind == K_SYM32) && r.chance(70)) {
                ctx = r.coin() ? obj_cipher(*s, r, *ki) : obj_mac(*s, r, *ki);
                check_new(v, *ctx);
                for (size_t d = 0; d < dead.size();)
                    if (dead[d]->type == ctx->type && dead[d]->h == ctx->h)
                        dead.erase(dead.begin() + (long) d);
                    else
                        d++;
            }
            if (r.coin())
                o.finish(*s, r);
            sa_status st = o.release(*s);
            trace("release of %s %lu -> %s", ot_name(o.type), o.h, status_name(st));
            if (st != SA_STATUS_OK)
                viol(strf("release-refused:%s", ot_name(o.type)), "release of a live handle gave %s", status_name(st));
            st = o.release(*s);
            if (st == SA_STATUS_OK)
                viol(strf("after-release-accepted:release:%s", ot_name(o.type)), "the same handle was released twice");
            sig = mix64(sig, (uint64_t) o.type);
            dead.push_back(std::move(v[oi]));
            v.erase(v.begin() + (long) oi);
            if (ctx) {
                ctx->use(*s, r);
                ctx->use(*s, r);
                cov(strf("context-outlives-key:%s", ot_name(ctx->type)));
                v.push_back(std::move(ctx));
            }
            for (auto& x : v) {
                x->verify(*s, r);
                if (r.chance(40))
                    x->use(*s, r);
            }
        } else if (w < 8 && !dead.empty()) {
            Obj& o = *dead[r.below(dead.size())];
            if (live(v, o.type, o.h))
                viol("handle-twice", "bookkeeping");
            o.attack(*s, r, nullptr, "after-release");
            if (o.type == O_SVP)   // memory given back is not touched any more
                o.verify(*s, r);
            if (!v.empty())
                r.pick(v)->use(*s, r);
        } else if (!v.empty())
            r.pick(v)->use(*s, r);
        if (r.chance(15))
            r.pick(other)->use(bystander, r);
    }
    nontrivial(sig);
    if (client) {
        for (auto& o : v) {
            o->finish(*s, r);
            if (o->release(*s) != SA_STATUS_OK)
                viol(strf("release-refused:%s", ot_name(o->type)), "release at the end failed");
        }
        v.clear();
    } else {
        ta_client slot = s->slot;
        s->close();
        closed_session(*s, r, v);
        // the next session may get the same slot: nothing of the old one is in it
        Sess again(true, s->uuid);
        if (again.slot == slot) {
            for (auto& o : v) {
                o->attack(again, r, nullptr, "after-close");
                cov(strf("new-session-same-slot:%s", ot_name(o->type)));
            }
            for (auto& o : dead)
                o->attack(again, r, nullptr, "after-close");
        }
    }
    for (auto& o : other) {
        o->verify(bystander, r);
        o->use(bystander, r);
        o->finish(bystander, r);
    }
    bystander.close();
    uint64_t b = ta_live_blocks();
    if (b != blocks0)
        viol("memory-held", "%" PRIu64 " TA memory blocks before the session, %" PRIu64 " after everything was released or closed", blocks0, b);
    if (index % 1000 == 0)
        sample(strf("case seed %" PRIu64 ": %zu steps, %s session", g_case_seed, steps, client ? "client library" : "TA"));
}
}   // namespace
Harness harness() {
    return {"random histories of creating, using and releasing keys, contexts and SVP buffers in one session next to a bystander session; every "
            "operation is tried on released handles, on handles of closed sessions and through a new session in the same slot; contexts are used "
            "after their key is released; all live objects are compared with their models and TA memory with what was held before. Distinct: "
            "sequence of object types released",
            init, one, nullptr};
}
