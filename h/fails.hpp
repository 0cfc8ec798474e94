// Calls that must fail without any effect, on valid live objects.
#pragma once
#include "objs.hpp"
struct World {   // a session with one key of each kind, contexts and SVP buffers
    Sess& s;
    std::vector<std::unique_ptr<Obj>> keys;   // indexed by KK
    std::unique_ptr<Obj> cipher, mac, svp, svp2;
    World(Sess& s, Rng& r);
    ~World();
    const KInfo& k(KK kind) const { return *obj_key_info(*keys[kind]); }
    sa_key h(KK kind) const { return keys[kind]->h; }
    void verify(Rng& r);   // everything is still as its model says
    void use_all(Rng& r);
};
struct FailCall {
    std::string name;
    std::function<sa_status(World&, Rng&)> run;
};
const std::vector<FailCall>& fail_calls();
