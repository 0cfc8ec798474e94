// C07: exported keys import as the same key, and only if not a bit of the container changed.
#include "ops.hpp"
namespace {
std::vector<const Op*> makers;
std::set<Bytes> g_ivs;                       // every 16 aligned bytes of protected content seen by this worker
std::map<std::array<uint8_t, 48>, Bytes> g_key_mixin;   // ladder inputs of export protection keys, and their use
void init() {
    Rng r(7);
    ops_warmup(r);
    for (auto& o : ops())
        if (o.creates)
            makers.push_back(&o);
}
bool header_equal(const sa_header& a, const sa_header& b, std::string* why) {
    auto no = [&](const char* w) { return *why = w, false; };
    if (memcmp(a.magic, b.magic, 4) != 0)
        return no("magic");
    if (a.type != b.type)
        return no("type");
    if (a.size != b.size)
        return no("size");
    if (!rights_equal(a.rights, b.rights))
        return no("rights");
    if (a.type == SA_KEY_TYPE_EC && a.type_parameters.curve != b.type_parameters.curve)
        return no("curve");
    if (a.type == SA_KEY_TYPE_DH && (a.type_parameters.dh_parameters.p_length != b.type_parameters.dh_parameters.p_length ||
                                            a.type_parameters.dh_parameters.g_length != b.type_parameters.dh_parameters.g_length ||
                                            memcmp(a.type_parameters.dh_parameters.p, b.type_parameters.dh_parameters.p, a.type_parameters.dh_parameters.p_length) != 0 ||
                                            memcmp(a.type_parameters.dh_parameters.g, b.type_parameters.dh_parameters.g, a.type_parameters.dh_parameters.g_length) != 0))
        return no("Diffie-Hellman parameters");
    return true;
}
sa_header header_of(Sess& s, sa_key k) {
    sa_header h;
    memset(&h, 0xEE, sizeof h);
    sa_status st = SA(s, key_header, &h, k);
    if (st != SA_STATUS_OK)
        viol("header", "key_header gave %s", status_name(st));
    return h;
}
// what can be observed of a key's material without using its rights
Bytes identity(Sess& s, sa_key k, const sa_header& h) {
    Bytes o;
    sa_status st = SA_STATUS_OK;
    if (h.type == SA_KEY_TYPE_SYMMETRIC)
        for (auto d : DIGESTS) {
            Bytes x;
            if ((st = key_digest(s, k, d, &x)) != SA_STATUS_OK)
                break;
            app(o, x);
        }
    else
        st = key_pub(s, k, &o);
    // refused when the rights do not let this caller use the key now
    if (st != SA_STATUS_OK && st != SA_STATUS_OPERATION_NOT_ALLOWED)
        viol("identity", "key_digest or get_public gave %s", status_name(st));
    if (st != SA_STATUS_OK)
        o = Bytes(1, 0);
    cov(st == SA_STATUS_OK ? "identity" : "identity-refused");
    return o;
}
sa_status import(Sess& s, Rng& r, const Bytes& c, sa_key* k, size_t shift = 0) {
    GBuf g(cat({Bytes(shift), c}));
    *k = INVALID_HANDLE;
    (void) r;
    sa_status st = SA(s, key_import, k, SA_KEY_FORMAT_EXPORTED, g.p + shift, c.size(), nullptr);
    if (!g.guards_ok() || g.get(shift, c.size()) != c)
        viol("import-wrote", "importing changed the container");
    return st;
}
void must_fail(Sess& s, Rng& r, const char* what, const Bytes& c, const std::string& detail) {
    uint64_t live = ta_live_blocks();
    sa_key k;
    sa_status st = import(s, r, c, &k);
    cov(std::string("refused:") + what);
    if (st == SA_STATUS_OK)
        viol(strf("accepted:%s", what), "a container with %s was imported", detail.c_str());
    if (ta_live_blocks() != live)
        viol(strf("kept:%s", what), "a refused import (%s) leaves %lld blocks", detail.c_str(), (long long) (ta_live_blocks() - live));
}
// every kind of damage
void attack(Sess& s, Rng& r, const Bytes& c, const Bytes* other) {
    if (r.chance(15)) {   // every byte
        unsigned m = 1 + r.below(255);
        for (size_t i = 0; i < c.size(); i++) {
            Bytes x = c;
            x[i] ^= (uint8_t) m;
            must_fail(s, r, "each byte", x, strf("byte %zu of %zu changed by 0x%02x", i, c.size(), m));
        }
    }
    for (unsigned i = 0; i < 14; i++) {
        Bytes x = c;
        size_t at = r.chance(40) ? r.below(std::min<size_t>(c.size(), 120)) : r.chance(30) ? c.size() - 1 - r.below(std::min<size_t>(c.size(), 100)) : r.below(c.size());
        switch (r.below(10)) {
            default:
                x[at] ^= 1u << r.below(8);
                must_fail(s, r, "bit", x, strf("bit in byte %zu of %zu flipped", at, c.size()));
                break;
            case 3: {
                size_t n = r.chance(40) ? c.size() - r.range(1, 33) : r.below(c.size());
                x.resize(n);
                must_fail(s, r, "truncated", x, strf("only %zu of %zu bytes", n, c.size()));
                break;
            }
            case 4:
                app(x, r.coin() ? Bytes(r.range(1, 48)) : r.bytes(r.range(1, 48)));
                must_fail(s, r, "extended", x, strf("%zu bytes for %zu", x.size(), c.size()));
                break;
            case 5: {   // a piece cut out of the middle
                size_t n = std::min<size_t>(r.pick({1, 8, 16, 32}), c.size() - at);
                x.erase(x.begin() + at, x.begin() + at + n);
                must_fail(s, r, "cut", x, strf("%zu bytes at %zu cut out", n, at));
                break;
            }
            case 6: {   // two blocks exchanged
                size_t b1 = c.size() / 16 > 1 ? r.below(c.size() / 16) : 0, b2 = r.below(c.size() / 16);
                std::swap_ranges(x.begin() + b1 * 16, x.begin() + b1 * 16 + 16, x.begin() + b2 * 16);
                if (x != c && b1 != b2)
                    must_fail(s, r, "exchanged", x, strf("blocks %zu and %zu of %zu exchanged", b1, b2, c.size() / 16));
                break;
            }
            case 7: {   // a field set to an extreme value
                size_t w = r.pick({1, 2, 4, 8, 16});
                for (size_t j = 0; j < w && at + j < x.size(); j++)
                    x[at + j] = i & 1 ? 0xff : 0;
                if (x != c)
                    must_fail(s, r, "extreme", x, strf("%zu bytes at %zu set to 0x%02x", w, at, i & 1 ? 0xff : 0));
                break;
            }
            case 8:
                if (other && other->size() == c.size()) {   // a tail or a range of another export
                    size_t n = r.range(1, c.size() - 1), from = r.coin() ? c.size() - n : r.below(c.size() - n);
                    if (r.chance(30)) {
                        from = 0;
                        n = 16;   // the mixin
                    } else if (r.chance(30)) {
                        from = c.size() - 32;
                        n = 32;   // the authentication code
                    }
                    memcpy(&x[from], &(*other)[from], n);
                    if (x != c && x != *other)
                        must_fail(s, r, "spliced", x, strf("bytes %zu to %zu of another export", from, from + n));
                }
                break;
            case 9:
                x = r.coin() ? Bytes() : r.bytes(r.chance(50) ? c.size() : r.below(2 * c.size()));
                if (x.empty())
                    x.push_back(0);
                must_fail(s, r, "random", x, strf("%zu random bytes", x.size()));
                break;
        }
    }
}
// nothing of the material is readable, and no block of protected content repeats
void opaque(const Bytes& c, const std::vector<Bytes>& secrets, const char* what) {
    for (auto& m : secrets)
        for (size_t i = 0; i + 8 <= m.size(); i++) {
            bool flat = true;   // runs like zero padding say nothing
            for (size_t j = 1; j < 8; j++)
                flat &= m[i + j] == m[i];
            if (!flat && std::search(c.begin(), c.end(), m.begin() + i, m.begin() + i + 8) != c.end())
                viol(strf("clear-material:%s", what), "the container of a %s key holds bytes %zu.. of its material", what, i);
        }
}
void fresh(const Bytes& c, size_t secret_len, const char* what) {
    // the last bytes: protected content and code; at least the padded material and a code of 32 bytes
    size_t n = (secret_len / 16 + 1) * 16 + 32;
    if (n > c.size())
        return;
    for (size_t i = c.size() - n; i + 16 <= c.size(); i += 16)
        if (!g_ivs.insert(Bytes(c.begin() + i, c.begin() + i + 16)).second)
            viol(strf("repeated:%s", what), "an export repeats 16 bytes of protected content of an earlier one, at %zu of %zu", i, c.size());
    cov("blocks-fresh", n / 16);
}
// exports with the given mixin; what the TA derived to protect it belongs to this mixin alone
sa_status export_watched(Sess& s, sa_key k, const Bytes* mixin, Bytes* c) {
    w_otp_log.clear();
    w_otp_on = true;
    sa_status st = key_export(s, k, mixin, c);
    w_otp_on = false;
    Bytes m = mixin ? *mixin : Bytes(16);   // none is the same as zeros
    bool wrapping = false;   // before it, the stored key is read, under values of its own
    for (auto& e : w_otp_log) {
        wrapping |= e.first == 'W';
        if (!wrapping)
            continue;
        cov(e.first == 'W' ? "wrapping-keys" : "integrity-keys");
        std::array<uint8_t, 48> a = e.second;
        Bytes mm = cat({Bytes{(uint8_t) e.first}, m});   // nor do wrapping and integrity share one
        auto it = g_key_mixin.find(a);
        if (it != g_key_mixin.end() && it->second != mm)
            viol("shared-protection-key", "exports with mixins %s and %s use the same protection key", hex(mm).c_str(), hex(it->second).c_str());
        g_key_mixin[a] = mm;
    }
    return st;
}
struct Subject {
    std::string what;
    sa_key h;
    std::vector<Bytes> secrets;
    const KInfo* k = nullptr;
    size_t len = 16;
};
void roundtrip(Sess& s, Rng& r, const Subject& x, bool cacheable) {
    sa_header h = header_of(s, x.h);
    Bytes id = identity(s, x.h, h);
    Bytes mixin = r.chance(20) ? Bytes(16, r.coin() ? 0xff : 0x80) : r.bytes(16);
    const Bytes* m = r.chance(40) ? nullptr : &mixin;
    Bytes c, c2;
    sa_status st = export_watched(s, x.h, m, &c);
    trace("export %s %s mixin -> %s %zu", x.what.c_str(), m ? "with" : "no", status_name(st), c.size());
    if (!cacheable) {
        if (st == SA_STATUS_OK)
            viol("not-cacheable", "a %s key without CACHEABLE was exported", x.what.c_str());
        GBuf g(4096);
        size_t n = g.n;
        st = SA(s, key_export, g.p, &n, m ? m->data() : nullptr, m ? m->size() : 0, x.h);
        if (st == SA_STATUS_OK || g.get() != Bytes(g.n, 0xA5))
            viol("not-cacheable", "a %s key without CACHEABLE was exported (%s) or output written", x.what.c_str(), status_name(st));
        cov("refused:not cacheable");
        return;
    }
    if (st != SA_STATUS_OK)
        viol(strf("export-refused:%s", x.what.c_str()), "exporting a %s key gave %s", x.what.c_str(), status_name(st));
    opaque(c, x.secrets, x.what.c_str());
    fresh(c, x.len, x.what.c_str());
    // a second one: same mixin, another or none
    Bytes mixin2 = r.chance(40) ? mixin : r.bytes(16);
    if (r.chance(30)) {
        mixin2 = mixin;
        mixin2[r.below(16)] ^= 1u << r.below(8);
    }
    st = export_watched(s, x.h, r.chance(25) ? nullptr : &mixin2, &c2);
    if (st != SA_STATUS_OK || c == c2)
        viol("export-again", "a second export gave %s%s", status_name(st), c == c2 ? " and the same container" : "");
    opaque(c2, x.secrets, x.what.c_str());
    fresh(c2, x.len, x.what.c_str());
    if (r.chance(30)) {   // bad mixin lengths
        size_t bad = r.pick({0, 1, 15, 17, 32});
        Bytes mb = r.bytes(bad ? bad : 1), out;
        GBuf g(4096);
        size_t n = g.n;
        st = SA(s, key_export, g.p, &n, mb.data(), bad, x.h);
        if (st == SA_STATUS_OK)
            viol("mixin-length", "a mixin of %zu bytes was accepted", bad);
        cov("refused:mixin length");
    }
    if (r.chance(20)) {   // by somebody else
        sa_uuid u = mk_uuid((uint8_t) r.range(20, 90));
        Bytes o;
        if (s.direct) {
            g_as = &u;
            st = key_export(s, x.h, m, &o);
            g_as = nullptr;
            if (st == SA_STATUS_OK)
                viol("not-owner", "another caller exported a %s key", x.what.c_str());
            cov("refused:not owner");
        }
    }
    // import: here, or in another session, which may outlive this one
    const Bytes& use = r.coin() ? c : c2;
    std::unique_ptr<Sess> later;
    if (r.coin())
        later.reset(new Sess(s.direct ? r.chance(70) : true, s.direct && r.coin() ? s.uuid : UUID_REE));
    Sess& t = later ? *later : s;
    attack(t, r, use, &use == &c ? &c2 : &c);
    sa_key n;
    st = import(t, r, use, &n, r.chance(25) ? r.pick({1, 3, 8, 16}) : 0);
    if (st != SA_STATUS_OK)
        viol(strf("import-refused:%s", x.what.c_str()), "importing the export of a %s key %s gave %s", x.what.c_str(),
                later ? "in another session" : "in its session", status_name(st));
    Finally fin{[&] { SA(t, key_release, n); }};
    sa_header h2 = header_of(t, n);
    std::string why;
    if (!header_equal(h, h2, &why))
        viol(strf("header:%s:%s", x.what.c_str(), why.c_str()), "the imported key has another %s: type %d size %d %s, was type %d size %d %s", why.c_str(), h2.type,
                h2.size, rights_str(h2.rights).c_str(), h.type, h.size, rights_str(h.rights).c_str());
    Bytes id2 = identity(t, n, h2);
    if (id2 != id && (s.uuid == t.uuid || (id.size() > 1 && id2.size() > 1)))
        viol(strf("material:%s", x.what.c_str()), "the imported %s key has other key material", x.what.c_str());
    cov("imported:" + x.what.substr(0, x.what.find('/')));
    if (x.k) {   // both answer alike
        for (int i = 0; i < 2; i++) {
            const Op* op = r.pick(ops_for(x.k->kind));
            if (op->creates && r.coin())
                continue;
            uint64_t seed = r.next();
            Rng r1(seed), r2(seed);
            OpEnv e1{s, r1, *x.k, x.h}, e2{t, r2, *x.k, n};
            // same caller, or what the key allows may differ
            if (s.uuid != t.uuid)
                break;
            sa_status s1 = run_op(*op, e1), s2 = run_op(*op, e2);
            if (s1 != s2)
                viol(strf("behaves-otherwise:%s", op->name.c_str()), "%s gives %s with the key and %s with its imported copy", op->name.c_str(), status_name(s1),
                        status_name(s2));
            cov(s1 == SA_STATUS_OK ? "used" : "use-refused");
        }
    }
    if (r.chance(30)) {   // export the import
        Bytes c3;
        st = export_watched(t, n, m, &c3);
        if (st != SA_STATUS_OK)
            viol("re-export", "exporting an imported key gave %s", status_name(st));
        fresh(c3, x.len, x.what.c_str());
        sa_key n3;
        if ((st = import(s, r, c3, &n3)) != SA_STATUS_OK)
            viol("re-import", "importing an export of an imported key gave %s", status_name(st));
        sa_header h3 = header_of(s, n3);
        bool same = header_equal(h, h3, &why) && identity(s, n3, h3) == id;
        SA(s, key_release, n3);
        if (!same)
            viol("re-import", "a key exported and imported twice differs");
        cov("twice");
    }
    nontrivial(mix64(hash_bytes(c.data(), c.size()), r.s));
}
sa_rights random_rights(Rng& r, bool* cacheable) {
    sa_rights rt = rights_rand(r, r.chance(70));
    *cacheable = !r.chance(15);
    if (*cacheable)
        SA_USAGE_BIT_SET(rt.usage_flags, SA_USAGE_FLAG_CACHEABLE);
    else
        SA_USAGE_BIT_CLEAR(rt.usage_flags, SA_USAGE_FLAG_CACHEABLE);
    return rt;
}
void one(Rng& r, uint64_t index) {
    if (g_ivs.size() > 400000)
        g_ivs.clear();
    if (g_key_mixin.size() > 200000)
        g_key_mixin.clear();
    Sess s(index % 4 != 0);
    bool cacheable;
    sa_rights rt = random_rights(r, &cacheable);
    switch (r.below(6)) {
        default: {
            KK kind = (KK) r.below(K_COUNT);
            KInfo k = make_key(s, r, kind, rt);
            Subject x{kk_name(kind), k.h, {}, &k, 16};
            if (kind == K_SYM16 || kind == K_SYM32)
                x.secrets.push_back(k.mat);
            else if (k.ek.raw.size())
                x.secrets.push_back(k.ek.raw);
            else if (kind == K_RSA) {
                BIGNUM* d = nullptr;
                EVP_PKEY_get_bn_param(k.ek.pkey, "d", &d);
                Bytes b(BN_num_bytes(d));
                BN_bn2bin(d, b.data());
                BN_free(d);
                x.secrets.push_back(b);
            }
            x.len = x.secrets.empty() ? 16 : x.secrets[0].size();
            roundtrip(s, r, x, cacheable);
            SA(s, key_release, k.h);
            if (k.ek.pkey && kind != K_RSA)
                EVP_PKEY_free(k.ek.pkey);
            break;
        }
        case 3: {   // any curve, or any RSA size
            bool rsa = r.chance(25);
            EKey e = rsa ? rsa_pool(r.pick({128, 256, 384, 512}), r.next()) : ec_generate(r, r.pick(curves_all()));
            sa_key k = INVALID_HANDLE;
            sa_status st = rsa ? imp_rsa(s, &k, e.priv, &rt) : imp_ec(s, &k, e.curve, e.priv, &rt);
            if (st == SA_STATUS_OK) {
                Subject x{rsa ? strf("RSA/%zu", (size_t) EVP_PKEY_get_bits(e.pkey)) : std::string("EC/") + curve_name(e.curve), k, {}, nullptr, 16};
                if (!rsa)
                    x.secrets.push_back(e.raw);
                roundtrip(s, r, x, cacheable);
                SA(s, key_release, k);
            }
            if (!rsa)
                EVP_PKEY_free(e.pkey);
            break;
        }
        case 4: {   // symmetric keys of every size, some with little structure
            size_t n = r.range(16, 512);
            Bytes m = r.bytes(n);
            sa_key k = must_sym(s, m, &rt);
            roundtrip(s, r, {strf("symmetric/%zu", n), k, {m}, nullptr, n}, cacheable);
            SA(s, key_release, k);
            break;
        }
        case 5: {   // the child of any operation that makes keys
            const Op& o = *r.pick(makers);
            std::vector<KK> kinds;
            for (int i = 0; i < K_COUNT; i++)
                if (o.kinds & (1u << i))
                    kinds.push_back((KK) i);
            KInfo k = make_key(s, r, r.pick(kinds), rights_all());
            OpEnv e{s, r, k, k.h};
            sa_rights child = rt;
            child.usage_flags |= 0x3fffull & ~SA_USAGE_BIT_MASK(SA_USAGE_FLAG_CACHEABLE);
            e.child = &child;
            bool done = false;
            e.on_child = [&](sa_key c) {
                if (!done)
                    roundtrip(s, r, {"child/" + o.name, c, {}, nullptr, 16}, cacheable);
                done = true;
            };
            run_op(o, e);
            SA(s, key_release, k.h);
            if (k.ek.pkey && k.kind != K_RSA)
                EVP_PKEY_free(k.ek.pkey);
            break;
        }
    }
}
}
Harness harness() {
    return {"each case makes a key (any kind, curve and size, or the child of any key-making operation) with random rights, exports it with "
            "and without mixins, imports it again there or in another session and compares header, digests or public key and behaviour; "
            "containers damaged in every way (each byte in turn in 15%) must be refused; ladder inputs of protection keys are recorded; "
            "non-trivial: an exported key imported again", init, one, nullptr};
}
