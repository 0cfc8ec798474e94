// Live objects with a reference model: what a handle stands for, how to use it, and how to try to abuse it.
#pragma once
#include "ops.hpp"
enum OT { O_KEY, O_CIPHER, O_MAC, O_SVP };
struct Obj {
    OT type;
    sa_handle h = INVALID_HANDLE;
    std::string what;
    explicit Obj(OT t) : type(t) {}
    virtual ~Obj() {}
    virtual void use(Sess& s, Rng& r) = 0;      // one valid use by the owner; wrong results are violations
    // one use that must fail, through session v, under caller as (null: the session's own)
    virtual void attack(Sess& v, Rng& r, const sa_uuid* as, const char* why) = 0;
    virtual sa_status release(Sess& s) = 0;
    virtual void verify(Sess&, Rng&) {}         // the model and the object agree
    virtual void finish(Sess&, Rng&) {}         // last check before release
};
const char* ot_name(OT t);
std::unique_ptr<Obj> obj_create(Sess& s, Rng& r, OT t, sa_status* st = nullptr);   // st: report instead of raising
std::unique_ptr<Obj> obj_key(Sess& s, Rng& r, KK kind, sa_status* st = nullptr);
std::unique_ptr<Obj> obj_cipher(Sess& s, Rng& r, const KInfo& k, sa_status* st = nullptr);   // k stays the caller's
std::unique_ptr<Obj> obj_mac(Sess& s, Rng& r, const KInfo& k, sa_status* st = nullptr);
const KInfo* obj_key_info(const Obj& o);
