// C28: a key's header, digest and public key are those of the key, however it was made and whatever it was used for.
#include "fails.hpp"
namespace {
std::vector<const Op*> makers;
std::map<sa_elliptic_curve, std::vector<EKey>> g_ec;
struct Group { std::string name; Bytes p, g; };
std::vector<Group> groups;
void init() {
    Rng r(28);
    ops_warmup(r);
    for (auto c : curves_all())
        for (int i = 0; i < 3; i++)
            g_ec[c].push_back(ec_generate(r, c));
    for (auto& o : ops())
        if (o.creates)
            makers.push_back(&o);
    groups.push_back({"512", dh_group().p, dh_group().g});
    const struct { const char* n; BIGNUM* (*f)(BIGNUM*); } st[] = {{"768", BN_get_rfc2409_prime_768}, {"1024", BN_get_rfc2409_prime_1024},
            {"1536", BN_get_rfc3526_prime_1536}, {"2048", BN_get_rfc3526_prime_2048}};
    for (auto& x : st) {
        BIGNUM* b = x.f(nullptr);
        Bytes p(BN_num_bytes(b));
        BN_bn2bin(b, p.data());
        BN_free(b);
        groups.push_back({x.n, p, {2}});
    }
}
// what every handle of one key must report
struct Ident {
    std::string what;
    sa_key_type type = SA_KEY_TYPE_SYMMETRIC;
    size_t size = 0;
    sa_elliptic_curve curve{};
    const Group* dh = nullptr;
    sa_rights rights{};
    Bytes mat;        // symmetric
    Bytes pub;        // asymmetric; empty: taken from the first handle
    bool know = true;   // symmetric material is known
    std::map<int, Bytes> digests;   // of unknown material, from the first handle
};
void check(Sess& s, sa_key k, Ident& id, const char* when) {
    const char* w = id.what.c_str();
    GBuf g(sizeof(sa_header));
    auto* h = (sa_header*) g.p;
    sa_status st = SA(s, key_header, h, k);
    if (st != SA_STATUS_OK)
        viol(strf("header-refused:%s", when), "%s, %s: key_header gave %s", w, when, status_name(st));
    if (!g.guards_ok())
        viol("header-overrun", "%s: key_header wrote past the header", w);
    if (memcmp(h->magic, "sak0", 4) != 0)
        viol("magic", "%s, %s: the header's magic is %s", w, when, hex(h->magic, 4).c_str());
    if (h->type != id.type || h->size != id.size)
        viol(strf("type-size:%s", when), "%s, %s: type %d size %d, the key has type %d size %zu", w, when, h->type, h->size, id.type, id.size);
    if (id.type == SA_KEY_TYPE_EC && h->type_parameters.curve != id.curve)
        viol(strf("curve:%s", when), "%s, %s: curve %d, the key is on %d", w, when, h->type_parameters.curve, id.curve);
    if (id.dh) {
        auto& d = h->type_parameters.dh_parameters;
        if (d.p_length != id.dh->p.size() || d.g_length != id.dh->g.size() || memcmp(d.p, id.dh->p.data(), d.p_length) != 0 || memcmp(d.g, id.dh->g.data(), d.g_length) != 0)
            viol(strf("dh-parameters:%s", when), "%s, %s: p of %zu bytes, g of %zu bytes, or other values than the key was made with", w, when, d.p_length, d.g_length);
    }
    if (!rights_equal(h->rights, id.rights))
        viol(strf("rights:%s", when), "%s, %s: rights %s, made with %s", w, when, rights_str(h->rights).c_str(), rights_str(id.rights).c_str());
    if (id.type == SA_KEY_TYPE_SYMMETRIC)
        for (auto d : DIGESTS) {
            Bytes x;
            st = key_digest(s, k, d, &x);
            if (st != SA_STATUS_OK)
                viol(strf("digest-refused:%s", when), "%s, %s: key_digest gave %s", w, when, status_name(st));
            if (!id.know && id.digests.count(d) == 0)
                id.digests[d] = x;
            if (x != (id.know ? ref_digest(d, id.mat) : id.digests[d]))
                viol(strf("digest:%s", when), "%s, %s: the digest is %s", w, when, hex(x).c_str());
        }
    else {
        Bytes x;
        st = key_digest(s, k, DIGESTS[id.size % 4], &x);
        if (st == SA_STATUS_OK)
            viol("digest-asymmetric", "%s, %s: an asymmetric key has a digest", w, when);
    }
    if (id.type != SA_KEY_TYPE_SYMMETRIC) {
        Bytes x;
        st = key_pub(s, k, &x);
        if (st != SA_STATUS_OK)
            viol(strf("public-refused:%s", when), "%s, %s: get_public gave %s", w, when, status_name(st));
        if (id.pub.empty())
            id.pub = x;
        if (x != id.pub)
            viol(strf("public:%s", when), "%s, %s: the public key is %s, of the key pair it is %s", w, when, hex(x, 32).c_str(), hex(id.pub, 32).c_str());
    }
    cov(strf("checked:%s", when));
    trace("%s, %s: type %d size %zu as expected", w, when, id.type, id.size);
}

// another handle of the same key, made in another way; INVALID_HANDLE when the way does not apply
sa_key again(Sess& s, Rng& r, sa_key k, Sess& from, Ident& id, const Bytes& der, const char** how) {
    sa_key n = INVALID_HANDLE;
    sa_status st;
    const sa_rights* rt = &id.rights;
    bool sym = id.type == SA_KEY_TYPE_SYMMETRIC;
    unsigned way = (unsigned) r.below(8);
    const Bytes& m = sym ? id.mat : der;
    if ((way >= 2 && (!id.know || m.empty())) || way == 0) {
        if (!SA_USAGE_BIT_TEST(id.rights.usage_flags, SA_USAGE_FLAG_CACHEABLE))
            return n;
        *how = "exported and imported";
        Bytes c;
        if ((st = key_export(from, k, nullptr, &c)) != SA_STATUS_OK)
            viol("export", "export gave %s", status_name(st));
        st = SA(s, key_import, &n, SA_KEY_FORMAT_EXPORTED, c.data(), c.size(), nullptr);
    } else if (way == 1 || way == 2) {
        if (!id.know || m.empty())
            return n;
        *how = "imported again";
        st = sym ? imp_sym(s, &n, m.data(), m.size(), rt) : id.type == SA_KEY_TYPE_EC ? imp_ec(s, &n, id.curve, m, rt) : imp_rsa(s, &n, m, rt);
    } else {   // unwrapped
        Bytes wk = r.bytes(r.coin() ? 16 : 32), iv = r.bytes(16), tag, ct;
        sa_key w = must_sym(s, wk);
        sa_unwrap_type_parameters_ec tp = {id.curve};
        void* tpp = id.type == SA_KEY_TYPE_EC ? &tp : nullptr;
        if (way == 3 && sym && m.size() % 16 == 0) {
            *how = "unwrapped with ECB";
            ct = ref_ecb(wk, m, true);
            st = SA(s, key_unwrap, &n, rt, id.type, tpp, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, w, ct.data(), ct.size());
        } else if (way == 4) {
            *how = "unwrapped with CBC";
            ct = ref_cbc(wk, iv, pkcs7(m), true);
            sa_unwrap_parameters_aes_cbc p = {iv.data(), 16};
            st = SA(s, key_unwrap, &n, rt, id.type, tpp, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, &p, w, ct.data(), ct.size());
        } else if (way == 5) {
            *how = "unwrapped with GCM";
            iv.resize(12);
            Bytes aad = r.bytes(7);
            ct = ref_gcm_enc(wk, iv, aad, m, &tag);
            sa_unwrap_parameters_aes_gcm p = {iv.data(), 12, aad.data(), 7, tag.data(), 16};
            st = SA(s, key_unwrap, &n, rt, id.type, tpp, SA_CIPHER_ALGORITHM_AES_GCM, &p, w, ct.data(), ct.size());
        } else {
            *how = "unwrapped with CTR";
            ct = ref_ctr(wk, iv, m);
            sa_unwrap_parameters_aes_ctr p = {iv.data(), 16};
            st = SA(s, key_unwrap, &n, rt, id.type, tpp, SA_CIPHER_ALGORITHM_AES_CTR, &p, w, ct.data(), ct.size());
        }
        SA(s, key_release, w);
    }
    if (st != SA_STATUS_OK)
        viol(strf("again:%s", *how), "%s %s gave %s", id.what.c_str(), *how, status_name(st));
    return n;
}
void disturb(Sess& s, Rng& r, const KInfo* ki, sa_key k, const Ident& id) {
    for (int i = 0; i < 3; i++) {
        sa_key n = INVALID_HANDLE;
        size_t len = 0;
        uint8_t b[8];
        switch (r.below(6)) {
            default:
                if (ki) {
                    OpEnv e{s, r, *ki, k};
                    run_op(*r.pick(ops_for(ki->kind)), e);
                    cov("used");
                    break;
                }
                // fall through
            case 3: {
                len = sizeof b;
                SA(s, key_digest, b, &len, k, SA_DIGEST_ALGORITHM_SHA256);   // too short
                len = sizeof b;
                SA(s, key_get_public, b, &len, k);
                break;
            }
            case 4: {   // as wrapping key, for garbage
                Bytes g = r.bytes(r.pick({16, 32, 128}));
                sa_rights all = rights_all();
                if (SA(s, key_unwrap, &n, &all, SA_KEY_TYPE_RSA, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, k, g.data(), g.size()) == SA_STATUS_OK)
                    SA(s, key_release, n);
                break;
            }
            case 5: {
                Bytes c;
                key_export(s, k, nullptr, &c);
                break;
            }
        }
    }
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    sa_rights rt = rights_rand(r, true);
    rt.usage_flags |= SA_USAGE_BIT_MASK(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22);
    if (r.coin())
        SA_USAGE_BIT_SET(rt.usage_flags, SA_USAGE_FLAG_CACHEABLE);
    Ident id;
    id.rights = rt;
    sa_key k = INVALID_HANDLE;
    KInfo ki;
    bool have = false;
    Bytes der;
    sa_status st = SA_STATUS_OK;
    Finally fin{[&] {
        if (k != INVALID_HANDLE)
            SA(s, key_release, k);
        if (have && ki.ek.pkey && ki.kind != K_RSA)
            EVP_PKEY_free(ki.ek.pkey);
    }};
    const char* how = "made";
    switch (r.below(8)) {
        case 0: case 1: {
            ki = make_key(s, r, (KK) r.below(K_COUNT), rt);
            have = true;
            k = ki.h;
            id.what = kk_name(ki.kind);
            id.mat = der = ki.mat;
            switch (ki.kind) {
                case K_SYM16: id.size = 16; break;
                case K_SYM32: id.size = 32; break;
                case K_RSA: id.type = SA_KEY_TYPE_RSA; id.size = 128; break;
                case K_DH: id.type = SA_KEY_TYPE_DH; id.size = 64; id.dh = &groups[0]; id.know = false; break;
                default: id.type = SA_KEY_TYPE_EC; id.curve = ki.ek.curve; id.size = curve_size(id.curve); break;
            }
            if (ki.ek.pkey)
                id.pub = pub_der(ki.ek.pkey);
            break;
        }
        case 2: {   // any symmetric size
            id.mat = r.bytes(r.chance(30) ? r.range(1, 32) * 16 : r.range(16, 512));
            id.size = id.mat.size();
            id.what = strf("symmetric-%zu", id.size);
            st = imp_sym(s, &k, id.mat.data(), id.size, &rt);
            break;
        }
        case 3: {
            const EKey& e = r.pick(g_ec[r.pick(curves_all())]);
            id.type = SA_KEY_TYPE_EC;
            id.curve = e.curve;
            id.size = curve_size(e.curve);
            id.pub = pub_der(e.pkey);
            der = e.priv;
            id.what = curve_name(e.curve);
            st = imp_ec(s, &k, e.curve, der, &rt);
            break;
        }
        case 4: {
            const EKey& e = rsa_pool(r.pick({128, 256, 384, 512}), r.next());
            id.type = SA_KEY_TYPE_RSA;
            id.size = EVP_PKEY_get_bits(e.pkey) / 8;
            id.pub = pub_der(e.pkey);
            der = e.priv;
            id.what = strf("rsa-%zu", id.size);
            st = imp_rsa(s, &k, der, &rt);
            break;
        }
        case 5: {   // generated
            how = "generated";
            id.know = false;
            unsigned g = (unsigned) r.below(4);
            if (g == 0) {
                sa_generate_parameters_symmetric p = {(size_t) r.range(16, 512)};
                id.size = p.key_length;
                id.what = strf("generated-symmetric-%zu", id.size);
                st = SA(s, key_generate, &k, &rt, SA_KEY_TYPE_SYMMETRIC, &p);
            } else if (g == 1) {
                const Group& d = r.pick(groups);
                sa_generate_parameters_dh p = {d.p.data(), d.p.size(), d.g.data(), d.g.size()};
                id.type = SA_KEY_TYPE_DH;
                id.dh = &d;
                id.size = d.p.size();
                id.what = "generated-dh-" + d.name;
                st = SA(s, key_generate, &k, &rt, SA_KEY_TYPE_DH, &p);
            } else {
                sa_generate_parameters_ec p = {r.pick(curves_all())};
                id.type = SA_KEY_TYPE_EC;
                id.curve = p.curve;
                id.size = curve_size(p.curve);
                id.what = strf("generated-%s", curve_name(p.curve));
                st = SA(s, key_generate, &k, &rt, SA_KEY_TYPE_EC, &p);
            }
            break;
        }
        default: {   // made by another operation: what it reports first, it must go on reporting
            const Op& o = *r.pick(makers);
            std::vector<KK> kinds;
            for (int i = 0; i < K_COUNT; i++)
                if (o.kinds & (1u << i))
                    kinds.push_back((KK) i);
            KInfo p = make_key(s, r, r.pick(kinds), rights_all());
            Finally f{[&] {
                SA(s, key_release, p.h);
                if (p.ek.pkey && p.kind != K_RSA)
                    EVP_PKEY_free(p.ek.pkey);
            }};
            OpEnv e{s, r, p, p.h};
            sa_rights child = rt;
            child.usage_flags |= 0x3fff;   // nothing for the parent to take away
            e.child = &child;
            e.on_child = [&](sa_key c) {
                sa_header h;
                if (SA(s, key_header, &h, c) != SA_STATUS_OK)
                    viol("header-refused:child", "the header of a new key was refused");
                Ident ci;
                ci.what = "child:" + o.name;
                ci.type = (sa_key_type) h.type;
                ci.size = h.size;
                ci.curve = h.type_parameters.curve;
                ci.rights = child;
                ci.know = false;
                check(s, c, ci, "made by an operation");
                disturb(s, r, nullptr, c, ci);
                const char* hw = "";
                sa_key n = again(s, r, c, s, ci, {}, &hw);
                check(s, c, ci, "made by an operation, after use");
                if (n != INVALID_HANDLE) {
                    check(s, n, ci, hw);
                    SA(s, key_release, n);
                }
                nontrivial(mix64(r.s, 5));
            };
            run_op(o, e);
            return;
        }
    }
    if (st != SA_STATUS_OK)
        viol("creation-refused", "%s: creation gave %s", id.what.c_str(), status_name(st));
    check(s, k, id, how);
    Sess other(s.direct, s.uuid);
    struct H { Sess* s; sa_key k; const char* how; };
    std::vector<H> hs;
    Finally f2{[&] {
        for (auto& h : hs)
            SA(*h.s, key_release, h.k);
    }};
    size_t n = r.range(1, 4);
    for (size_t i = 0; i < n; i++) {
        disturb(s, r, have ? &ki : nullptr, k, id);
        check(s, k, id, "after use");
        Sess* t = r.coin() ? &s : &other;
        const char* hw = "";
        sa_key a = again(*t, r, k, s, id, der, &hw);
        if (a != INVALID_HANDLE) {
            hs.push_back({t, a, hw});
            check(*t, a, id, hw);
            if (have && r.coin()) {
                disturb(*t, r, &ki, a, id);
                check(*t, a, id, "another handle, after use");
            }
        }
    }
    check(s, k, id, "at the end");
    for (auto& h : hs)
        check(*h.s, h.k, id, "another handle, at the end");
    // dead handles and missing arguments
    sa_header h;
    memset(&h, 0x5A, sizeof h);
    sa_header h0 = h;
    if (SA(s, key_header, &h, INVALID_HANDLE) == SA_STATUS_OK || SA(s, key_header, nullptr, k) == SA_STATUS_OK)
        viol("header-accepted", "key_header accepted an invalid handle or a missing header");
    if (memcmp(&h, &h0, sizeof h) != 0)
        viol("header-written", "a refused key_header wrote to the header");
    nontrivial(mix64(r.s, hs.size()));
}
}
Harness harness() {
    return {"each case makes a key in some way (imported, generated, or by any key-making operation; any kind, curve, size, group; random rights), then uses it, fails "
            "calls on it, and makes more handles of it (imported again, unwrapped in 4 ways, exported and imported, here or in another session), comparing header, "
            "digests and public key of every handle with the key's own after each step; every finished case counts as non-trivial", init, one, nullptr};
}
