// C04: a key's material is usable exactly by the callers its allowed TA list admits.
#include "ops.hpp"
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
bool admits(const sa_rights& rt, const sa_uuid& u) {
    for (auto& e : rt.allowed_tas) {
        if (e == UUID_NONE)
            continue;
        if (e == UUID_ALL || e == u)
            return true;
    }
    return false;
}
sa_uuid near_miss(Rng& r, sa_uuid u) {
    u.id[r.below(3) == 0 ? 15 : r.below(3) == 0 ? 0 : r.below(16)] ^= (uint8_t) (1u << r.below(8));
    return u;
}
int hit_position;   // where in the list the admitting entry is
void list_rand(Rng& r, sa_rights& rt, const sa_uuid& me) {
    hit_position = -1;
    int style = (int) r.below(6);
    for (auto& e : rt.allowed_tas)
        switch (style == 5 ? r.below(4) : style) {
            case 0: e = UUID_NONE; break;
            case 1: r.fill(e.id, 16); break;
            case 2: e = near_miss(r, me); break;
            case 3: e = r.coin() ? near_miss(r, UUID_ALL) : near_miss(r, UUID_NONE); break;
            default: e = r.coin() ? UUID_NONE : near_miss(r, me); break;
        }
    size_t p = r.below(4) == 0 ? (r.coin() ? 0 : MAX_NUM_ALLOWED_TA_IDS - 1) : r.below(MAX_NUM_ALLOWED_TA_IDS);
    switch (r.below(4)) {
        case 0: rt.allowed_tas[p] = me; hit_position = (int) p; break;
        case 1: rt.allowed_tas[p] = UUID_ALL; hit_position = (int) p; break;
        default: break;
    }
}
sa_uuid caller(Rng& r) {
    switch (r.below(5)) {
        case 0: return UUID_REE;
        case 1: return mk_uuid((uint8_t) r.next());
        case 2: return near_miss(r, UUID_ALL);
        case 3: return near_miss(r, UUID_NONE);
        default: { sa_uuid u; r.fill(u.id, 16); return u; }
    }
}
void try_op(Sess& s, Rng& r, const KInfo& k, const Op& o, const char* origin) {
    bool adm = admits(k.rights, s.uuid), expect = !o.load || adm;
    OpEnv e{s, r, k, k.h};
    if (o.sym_cipher && r.chance(30))
        e.svp_out = o.svp_able;
    sa_status st = run_op(o, e);
    std::string at = strf("%s with %s %s key by a caller that is %s the list (admitting entry at %d)", o.name.c_str(), origin,
            kk_name(k.kind), adm ? "on" : "not on", hit_position);
    if (expect && st != SA_STATUS_OK)
        viol(strf("refused:%s:%s", origin, o.name.c_str()), "%s gave %s", at.c_str(), status_name(st));
    if (!expect && st == SA_STATUS_OK)
        viol(strf("allowed:%s:%s", origin, o.name.c_str()), "%s succeeded", at.c_str());
    if (!expect && st != SA_STATUS_OPERATION_NOT_ALLOWED)
        viol(strf("status:%s:%s", origin, o.name.c_str()), "%s gave %s", at.c_str(), status_name(st));
    if (!expect && e.stage != 0)
        viol(strf("late:%s", o.name.c_str()), "%s: refused only after a context had been created", at.c_str());
    cov(strf("%s:%s", !o.load ? "ungated" : expect ? "admitted" : "refused", o.name.c_str()));
    cov(strf("origin:%s", origin));
    nontrivial(hash_bytes(o.name.data(), o.name.size(), (uint64_t) (hit_position + 1) * 16 + (uint64_t) k.kind +
            (uint64_t) origin[0] * 100000));
}
// a key with material mat reached through another way of creating it
void others(Sess& s, Rng& r, const sa_uuid& me) {
    sa_rights all = rights_all(), rt = rights_all();
    list_rand(r, rt, me);
    Bytes pm = r.bytes(32), cm = r.bytes(16);
    const char* origin;
    KInfo c;
    c.kind = K_SYM16;
    c.mat = cm;
    c.rights = rt;
    switch (r.below(4)) {
        case 0: {   // unwrapped
            origin = "unwrapped";
            sa_key p = must_sym(s, pm, &all);
            Bytes w = ref_ecb(pm, cm, true);
            sa_status st = SA(s, key_unwrap, &c.h, &rt, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, p, w.data(),
                    w.size());
            if (st != SA_STATUS_OK)
                viol("create:unwrap", "unwrap gave %s", status_name(st));
            SA(s, key_release, p);
            break;
        }
        case 1: {   // derived
            origin = "derived";
            sa_key p = must_sym(s, pm, &all);
            sa_kdf_parameters_concat pa = {16, SA_DIGEST_ALGORITHM_SHA256, p, nullptr, 0};
            sa_status st = SA(s, key_derive, &c.h, &rt, SA_KDF_ALGORITHM_CONCAT, &pa);
            if (st != SA_STATUS_OK)
                viol("create:derive", "derive gave %s", status_name(st));
            c.mat = ref_concat(SA_DIGEST_ALGORITHM_SHA256, pm, {}, 16, false);
            SA(s, key_release, p);
            break;
        }
        case 2: {   // exchanged
            origin = "exchanged";
            EKey a = ec_generate(r, SA_ELLIPTIC_CURVE_NIST_P256), b = ec_generate(r, SA_ELLIPTIC_CURVE_NIST_P256);
            sa_key p = must_ec(s, a, &all);
            Bytes der = pub_der(b.pkey);
            sa_status st = SA(s, key_exchange, &c.h, &rt, SA_KEY_EXCHANGE_ALGORITHM_ECDH, p, der.data(), der.size(), nullptr);
            if (st != SA_STATUS_OK)
                viol("create:exchange", "exchange gave %s", status_name(st));
            c.mat = ref_ecdh(a.pkey, b.pkey);
            c.kind = K_SYM32;
            EVP_PKEY_free(a.pkey);
            EVP_PKEY_free(b.pkey);
            SA(s, key_release, p);
            break;
        }
        default: {   // generated: the material is unknown, so only refusals and acceptances of loading are compared
            origin = "generated";
            sa_generate_parameters_symmetric gp = {16};
            sa_status st = SA(s, key_generate, &c.h, &rt, SA_KEY_TYPE_SYMMETRIC, &gp);
            if (st != SA_STATUS_OK)
                viol("create:generate", "generate gave %s", status_name(st));
            Bytes d;
            st = key_digest(s, c.h, SA_DIGEST_ALGORITHM_SHA256, &d);
            bool adm = admits(rt, me);
            if ((st == SA_STATUS_OK) != adm || (!adm && st != SA_STATUS_OPERATION_NOT_ALLOWED))
                viol("generated-key", "digest of a generated key by a caller that is %s the list gave %s", adm ? "on" : "not on",
                        status_name(st));
            cov("origin:generated");
            SA(s, key_release, c.h);
            return;
        }
    }
    auto v = ops_for(c.kind);
    for (int i = 0; i < 2; i++)
        try_op(s, r, c, *r.pick(v), origin);
    SA(s, key_release, c.h);
}
void one(Rng& r, uint64_t index) {
    sa_uuid me = index % 8 == 0 ? UUID_REE : caller(r);
    if (me == UUID_ALL || me == UUID_NONE)
        me = UUID_REE;
    Sess s(index % 8 != 0, me);
    for (int round = 0; round < 2; round++) {
        KK kind = (KK) r.below(K_COUNT);
        sa_rights rt = rights_all();
        list_rand(r, rt, me);
        KInfo k = make_key(s, r, kind, rt);
        if (kind == K_DH && admits(rt, me) && key_pub(s, k.h, &k.dh_pub) != SA_STATUS_OK)
            viol("public-refused", "public key refused to an admitted caller");
        auto v = ops_for(kind);
        size_t n = r.range(1, 4);
        for (size_t i = 0; i < n; i++)
            try_op(s, r, k, *r.pick(v), "imported");
        if (r.chance(40)) {   // through an exported container
            Bytes mix = r.bytes(16), box;
            sa_status st = key_export(s, k.h, r.coin() ? &mix : nullptr, &box);
            if (st != SA_STATUS_OK)
                viol("export-refused", "export by the owner gave %s", status_name(st));
            KInfo k2 = k;
            st = SA(s, key_import, &k2.h, SA_KEY_FORMAT_EXPORTED, box.data(), box.size(), nullptr);
            if (st != SA_STATUS_OK)
                viol("import-refused", "import of an exported key gave %s", status_name(st));
            for (int i = 0; i < 2; i++)
                try_op(s, r, k2, *r.pick(v), "reimported");
            SA(s, key_release, k2.h);
        }
        SA(s, key_release, k.h);
    }
    others(s, r, me);
    if (index % 2000 == 0)
        sample(strf("case seed %" PRIu64 ": caller %s, lists with near misses, one entry possibly admitting", g_case_seed,
                hex(me.id, 16).c_str()));
}
}   // namespace
Harness harness() {
    return {"random caller UUIDs and allowed TA lists made of zeros, random UUIDs and one-bit near misses of the caller, of all ones and "
            "of all zeros, with an admitting entry at a random position or none; catalogued operations on imported, generated, derived, "
            "unwrapped, exchanged and re-imported keys. Distinct: operation x kind x origin x position of the admitting entry",
            init, one, nullptr};
}
