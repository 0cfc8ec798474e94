// C25: SoC key containers import only if every authenticated field is genuine, and with exactly the rights they state.
#include "containers.hpp"
#include "ops.hpp"
namespace {
const char* const HD = "{\"alg\":\"A128GCM\"}";
struct Env {
    Rng& r;
    Sess& s;
    Soc c;
    std::string payload;
    Bytes tag, junk;
};
sa_status import(Env& e, const Bytes& in, sa_key* k, const Bytes* params) {
    GBuf g(in);
    std::unique_ptr<GBuf> p(params ? new GBuf(*params) : nullptr);
    *k = INVALID_HANDLE;
    sa_status st = SA(e.s, key_import, k, SA_KEY_FORMAT_SOC, g.p, in.size(), p ? p->p : nullptr);
    if (!g.guards_ok() || g.get() != in || (p && p->get() != *params))
        viol("import-wrote", "importing changed its input");
    if (st != SA_STATUS_OK && *k != INVALID_HANDLE)
        viol("handle-after-refusal", "import gave %s and wrote handle %llu", status_name(st), (unsigned long long) *k);
    return st;
}
Bytes params_of(const Soc& c) { return Bytes((const uint8_t*) &c.params, (const uint8_t*) (&c.params + 1)); }
void check_key(Env& e, sa_key k, const Soc& c, const char* how) {
    sa_header h;
    memset(&h, 0xEE, sizeof h);
    sa_status st = SA(e.s, key_header, &h, k);
    if (st != SA_STATUS_OK)
        viol("header", "key_header gave %s", status_name(st));
    sa_rights want = soc_rights(c);
    if (!rights_equal(h.rights, want))
        viol(strf("rights:%s", how), "the key has rights %s, the container states %s", rights_str(h.rights).c_str(), rights_str(want).c_str());
    if (h.type != c.type || h.size != c.size || (c.type == SA_KEY_TYPE_EC && h.type_parameters.curve != c.curve))
        viol(strf("type:%s", how), "the key is of type %u, %u bytes, curve %u; the container states %s", h.type, h.size, h.type_parameters.curve, c.key_type.c_str());
    bool listed = c.ta.empty();
    for (auto& u : c.ta)
        listed |= u == e.s.uuid || u == UUID_ALL;
    if (!listed)
        return cov("unusable");
    std::string why;
    if (c.type == SA_KEY_TYPE_SYMMETRIC) {
        if (!sym_matches(e.s, k, c.key, &why))
            viol(strf("material:%s", how), "not the contained key: %s", why.c_str());
    } else if (c.usage != 2) {
        if (!asym_matches(e.s, e.r, k, c.type == SA_KEY_TYPE_RSA, *c.ek, &why))
            viol(strf("material:%s", how), "not the contained key: %s", why.c_str());
    } else {
        Bytes pub;
        if ((st = key_pub(e.s, k, &pub)) != SA_STATUS_OK || pub != pub_der(c.ek->pkey))
            viol(strf("material:%s", how), "the public key is another or gave %s", status_name(st));
    }
    cov("material-checked");
}
void accept(Env& e, const Bytes& in, const Soc& c, const char* how) {
    uint64_t live = ta_live_blocks();
    sa_key k;
    trace("accept %s: %s", how, e.payload.c_str());
    Bytes p = params_of(c);
    sa_status st = import(e, in, &k, c.has_params ? &p : nullptr);
    if (st != SA_STATUS_OK)
        viol(strf("refused-genuine:%s", how), "a genuine container gave %s", status_name(st));
    check_key(e, k, c, how);
    if ((st = SA(e.s, key_release, k)) != SA_STATUS_OK)
        viol("release", "key_release gave %s", status_name(st));
    if (ta_live_blocks() != live)
        viol("kept:accepted", "import and release leave %lld blocks", (long long) (ta_live_blocks() - live));
    cov(std::string("accepted:") + how);
}
void refuse(Env& e, const Bytes& in, const std::string& what, int want = 0, bool small = false, const Bytes* params = nullptr) {
    uint64_t live = ta_live_blocks();
    sa_key k;
    trace("refuse %s: %s", what.c_str(), std::string(in.begin(), in.begin() + (long) std::min<size_t>(in.size(), 1500)).c_str());
    sa_status st = SA_STATUS_OK;
    Bytes p = params_of(e.c);
    if (!params && e.c.has_params)
        params = &p;
    if (small)
        on_small_stack([&] { st = import(e, in, &k, params); });
    else
        st = import(e, in, &k, params);
    if (st == SA_STATUS_OK) {
        if (want == 0)
            viol(strf("accepted:%s", what.c_str()), "a container with %s was imported", what.c_str());
        cov("either-accepted:" + what);
        SA(e.s, key_release, k);
    } else
        cov((want ? "either-refused:" : "refused:") + what);
    if (ta_live_blocks() != live)
        viol(strf("kept:%s", what.c_str()), "an import with %s leaves %lld blocks", what.c_str(), (long long) (ta_live_blocks() - live));
}
std::string text(Env& e, const JMap& m) { return jtext(m, e.r.coin() ? &e.r : nullptr); }
void set(JMap& m, const std::string& name, const std::string& raw) {
    if (JField* f = jfind(m, name))
        f->raw = raw;
    else
        m.push_back({name, raw});
}
// a genuine seal, one stated value changed
void unseal_attack(Env& e) {
    Rng& r = e.r;
    const Soc& c = e.c;
    Bytes tag = e.tag, sealed = soc_seal(c, &e.junk);
    Soc d = c;
    std::string what, hd = HD;
    int want = 0;
    JMap over;   // raw values that replace those of d
    switch (r.below(14)) {
        case 0:
            if (sealed.empty())
                return;
            sealed[r.below(sealed.size())] ^= (uint8_t) (1 << r.below(8)), what = "altered key";
            break;
        case 1: tag[r.below(16)] ^= (uint8_t) (1 << r.below(8)), what = "altered tag"; break;
        case 2: tag.resize(r.pick<size_t>({0, 1, 4, 8, 12, 13, 14, 15})), what = "truncated tag"; break;
        case 3: app(tag, r.bytes(r.pick<size_t>({1, 3, 16, 300}))), what = "extended tag"; break;
        case 4: {
            Bytes* f[4] = {&d.iv, &d.c1, &d.c2, &d.c3};
            int i = (int) r.below(4);
            (*f[i])[r.below(f[i]->size())] ^= (uint8_t) (1 << r.below(8));
            what = strf("altered %s", (const char*[]){"iv", "c1", "c2", "c3"}[i]);
            break;
        }
        case 5:
            d.version = c.version == 4 ? 5 : r.pick({4, c.version == 5 ? 6 : c.version - 1});
            if (d.version == 4 && c.root == 1)
                what = "altered version and root";
            what = "altered version";
            break;
        case 6:
            if (c.version < 5)
                return;
            d.root = c.root < 0 ? (int) r.below(2) : c.root == 0 ? r.pick({1, -1}) : r.pick({0, -1});
            what = "altered root key type";
            break;
        case 7: {
            do
                d.key_type = r.pick(soc_types());
            while (d.key_type == c.key_type);
            what = "altered key type";
            break;
        }
        case 8:
            d.usage = c.usage == 1 ? 3 : 1;
            what = "altered usage";
            break;
        case 9:
            if (c.usage != 2)
                return;
            d.decrypted = c.decrypted % 3 + 1;
            what = "altered decrypted usage";
            break;
        case 10:
            if (c.ta.empty() || r.coin()) {
                if (d.ta.size() == 32)
                    d.ta.pop_back();
                else
                    d.ta.push_back(r.coin() ? UUID_ALL : e.s.uuid);
            } else if (r.coin())
                d.ta[r.below(d.ta.size())].id[r.below(16)] ^= (uint8_t) (1 << r.below(8));
            else if (r.coin())
                d.ta.clear();
            else if (d.ta.size() > 1 && !(d.ta[0] == d.ta[1]))
                std::swap(d.ta[0], d.ta[1]);
            else
                d.ta.clear();
            what = "altered TA list";
            break;
        case 11:
            hd = r.pick({"{}", "{\"alg\":\"A256GCM\"}", "{\"alg\":\"A128GC\"}", "{\"alg\":\"A128GCMx\"}", "{\"alg\":\"\"}", "{\"alg\":1}", "{\"alg\":null}", "{\"alg\":[\"A128GCM\"]}",
                    "[]", "1", "", "\"A128GCM\"", "{\"Alg\":\"A128GCM\"}", "{\"alg\":\"a128gcm\"}", "{\"alg\":\"HS256\"}", "{\"alg\":\"none\"}"});
            what = "altered algorithm";
            break;
        case 12:   // values that differ only above their low byte
            switch (r.below(3)) {
                case 0: over.push_back({"containerVersion", r.pick<std::string>({strf("%d", c.version + 256), strf("%lld", (1ll << 32) + c.version), strf("%d", c.version - 256)})}); break;
                case 1: over.push_back({"keyUsage", r.pick<std::string>({strf("%d", c.usage + 256), strf("%lld", (1ll << 32) + c.usage), strf("%d", c.usage - 256)})}); break;
                default:
                    if (c.usage != 2)
                        return;
                    over.push_back({"decryptedKeyUsage", r.pick<std::string>({strf("%d", c.decrypted + 256), strf("%lld", (1ll << 40) + c.decrypted)})});
            }
            what = "value altered above its low byte";
            break;
        default: {
            sealed = cat({sealed, r.bytes(r.range(1, 16))});
            what = "longer key";
        }
    }
    JMap m = soc_fields(d, sealed);
    for (auto& f : over)
        set(m, f.name, f.raw);
    refuse(e, soc_pack(text(e, m), tag, hd.c_str()), what, want);
}
// properly sealed, but not well formed
void malformed(Env& e) {
    Rng& r = e.r;
    Soc c = e.c;
    std::string what;
    int want = 0;
    JMap over;
    Bytes params;
    bool use_params = false;
    const std::string other = r.pick({"null", "{}", "[]", "1", "true", "[\"AAAA\"]", "1.5", "{\"a\":1}"});
    std::vector<const char*> must = {"containerVersion", "keyType", "encryptedKey", "iv", "keyUsage", "c1", "c2", "c3"};
    if (c.usage == 2)
        must.push_back("decryptedKeyUsage");
    std::string drop;
    switch (r.below(16)) {
        case 0: drop = r.pick(must), what = "no " + drop; break;
        case 1: {
            const char* n = r.pick(must);
            bool number = !strcmp(n, "containerVersion") || !strcmp(n, "keyUsage") || !strcmp(n, "decryptedKeyUsage");
            over.push_back({n, number ? r.pick({"null", "{}", "[]", "\"1\"", "true", "[1]", "1.0", "18446744073709551616"}) : other});
            what = strf("%s of another type", n);
            break;
        }
        case 2:
            c.key_type = r.pick<std::string>({"", "A", "AES", "AES-", "AES-1", "AES-12", "AES-2", "HMAC", "HMAC-1", "HMAC-25", "RSA", "RSA-1", "RSA-204", "ECC-", "ECC-P", "ECC-X", "ECC-ED", "CHACHA20",
                    "AES-128 ", "AES-1280", "AES-192", "aes-128", "RSA-20480", "RSA-2048x", "DES", "ECC-P256x", "ECC-P-256", "ECC-P25", std::string(200, 'K'), std::string(1100, 'K'),
                    std::string(1300, 'K'), std::string(5000, 'K'), c.key_type + std::string(1, '\0'), c.key_type.substr(0, c.key_type.size() - 1), c.key_type.substr(0, 3)});
            what = "unknown key type";
            break;
        case 3:
            if (c.type == SA_KEY_TYPE_SYMMETRIC) {
                c.key = r.bytes(r.pick<size_t>({0, 1, c.size - 1, c.size + 1, c.size == 16 ? 32u : 16u, 15, 17, 64, 512}));
                if (c.key.size() == c.size)
                    return;
                what = "symmetric key of another size";
            } else {
                switch (r.below(6)) {
                    case 0: c.key = r.bytes(c.key.size()); break;
                    case 1: c.key.resize(r.below(c.key.size())); break;
                    case 2: c.key = r.bytes(c.size); break;
                    case 3: c.key[0] ^= 0x10; break;
                    case 4: c.key = {}; break;
                    default:
                        if (c.type == SA_KEY_TYPE_RSA)
                            c.key = rsa_pool(c.size == 128 ? 256 : 128, 0).priv;
                        else {
                            static const EKey p256 = [] { Rng q(5); return ec_generate(q, SA_ELLIPTIC_CURVE_NIST_P256); }();
                            static const EKey p384 = [] { Rng q(6); return ec_generate(q, SA_ELLIPTIC_CURVE_NIST_P384); }();
                            c.key = c.curve == SA_ELLIPTIC_CURVE_NIST_P256 ? p384.priv : p256.priv;
                        }
                }
                what = "no such private key";
            }
            break;
        case 4: c.usage = r.pick({0, 4, 5, 128, 255}), what = "unknown usage"; break;
        case 5:
            if (c.hmac)
                return;
            c.usage = 2, c.decrypted = r.pick({0, 4, 255}), what = "unknown decrypted usage";
            break;
        case 6: c.version = r.pick({0, 1, 2, 3}), c.root = -1, what = "old version"; break;
        case 7:
            if (c.version < 5)
                return;
            over.push_back({"rootKeyType", r.pick<std::string>({"\"\"", "\"u\"", "\"uniqu\"", "\"common2\"", "\"comm\"", "\"UNIQUE\"", "\"unique \"", "null", "1", "{}", "[\"unique\"]", jstr(std::string(3000, 'u'))})});
            what = "unknown root key type";
            break;
        case 8:
            if (!c.hmac)
                return;
            c.usage = 2, what = "HMAC key to unwrap with";
            break;
        case 9: {
            const char* n = r.pick({"iv", "c1", "c2", "c3"});
            size_t right = !strcmp(n, "iv") ? 12 : 16, k;
            do
                k = r.pick<size_t>({0, 1, 11, 12, 13, 15, 16, 17, 18, 32, 600, 5000});
            while (k == right);
            Bytes v = r.bytes(k);
            if (r.coin()) {   // the genuine value, cut or continued
                const Bytes& g = !strcmp(n, "iv") ? c.iv : !strcmp(n, "c1") ? c.c1 : !strcmp(n, "c2") ? c.c2 : c.c3;
                for (size_t i = 0; i < std::min(k, g.size()); i++)
                    v[i] = g[i];
            }
            over.push_back({n, jstr(b64std(v))});
            what = strf("%s of another length", n);
            break;
        }
        case 10: {
            const char* n = r.pick({"iv", "c1", "c2", "c3", "encryptedKey"});
            std::string t = b64std(!strcmp(n, "iv") ? c.iv : !strcmp(n, "c1") ? c.c1 : !strcmp(n, "c2") ? c.c2 : !strcmp(n, "c3") ? c.c3 : soc_seal(c, &e.junk));
            if (t.size() < 8)
                return;
            t[r.below(t.size() - 2)] = r.pick({'!', '*', '.', '"', '\x7f'});
            over.push_back({n, jstr(t)});
            what = strf("%s in bad base64", n);
            break;
        }
        case 11: {
            c.ta.clear();
            for (size_t n = r.pick<size_t>({33, 34, 64, 300}); n--;)
                c.ta.push_back(n ? mk_uuid((uint8_t) n) : e.s.uuid);
            what = "too many TAs";
            break;
        }
        case 12: {
            std::string id = uuid_text(mk_uuid(9)), good = jstr(id);
            std::string bad = r.pick<std::string>({"1", "null", "true", "[]", "{}", "\"\"", jstr(id.substr(1)), jstr(id + "0"), jstr(std::string(36, '-')), jstr(std::string(36, 'x')),
                    jstr(std::string(40000, 'f'))});
            size_t n = r.below(32), at = r.below(n + 1);
            std::string l = "[";
            for (size_t i = 0; i <= n; i++)
                l += (i ? "," : "") + (i == at ? bad : good);
            over.push_back({"entitledTaIds", l + "]"});
            what = "a malformed TA id";
            break;
        }
        case 13:
            over.push_back({"entitledTaIds", r.pick({"null", "1", "true", "\"00000000-0000-0000-0000-000000000001\"", "{}", "{\"a\":\"00000000-0000-0000-0000-000000000001\"}", "1.5"})});
            what = "TA list of another type";
            want = c.ta.empty() ? 0 : 0;
            break;
        case 14: {   // a TA id that is no UUID, sealed as such
            std::string bad(36, r.pick({'x', '-', ' ', 'g'}));
            if (r.coin())
                bad = uuid_text(e.s.uuid).substr(0, 35) + "g";
            c.ta.clear();
            over.push_back({"entitledTaIds", "[" + jstr(bad) + "]"});
            Bytes a = soc_aad(c);
            app(a, Bytes(bad.begin(), bad.end()));
            Bytes tag, k = ref_ladder(c.root == 1 ? common_root_key() : root_key(), c.c1, c.c2, c.c3, nullptr);
            Bytes sealed = ref_gcm_enc(k, c.iv, a, c.key, &tag);
            JMap m = soc_fields(c, sealed);
            set(m, "entitledTaIds", over[0].raw);
            return refuse(e, soc_pack(text(e, m), tag, HD), "a sealed TA id that is none");
        }
        default: {
            params = params_of(c);
            use_params = true;
            if (r.coin()) {
                params[2] = r.pick<uint8_t>({0, 1, 4, 5, 255});
                what = "parameters of another version";
            } else {
                size_t n = r.chance(50) ? r.range(3, sizeof(sa_import_parameters_soc) - 1) : 3;
                params[0] = (uint8_t) (n >> 8);
                params[1] = (uint8_t) n;
                params.resize(n);
                what = "parameters of another length";
            }
        }
    }
    Bytes tag, sealed = soc_seal(c, &tag);
    JMap m = soc_fields(c, sealed);
    for (auto& f : over)
        set(m, f.name, f.raw);
    if (!drop.empty())
        jdrop(m, drop);
    refuse(e, soc_pack(text(e, m), tag, HD), what, want, false, use_params ? &params : nullptr);
}
void init() {
    Rng r(7);
    ops_warmup(r);
    for (int i = 0; i < 120; i++) {   // every key type once, so that OpenSSL has what it keeps
        Sess s;
        Env e{r, s, soc_rand(r, true), "", {}, {}};
        e.c.ta.clear();
        Bytes sealed = soc_seal(e.c, &e.tag), p = params_of(e.c);
        sa_key k;
        if (import(e, soc_pack(jtext(soc_fields(e.c, sealed)), e.tag, HD), &k, &p) == SA_STATUS_OK) {
            std::string why;
            if (e.c.type != SA_KEY_TYPE_SYMMETRIC && e.c.usage != 2)
                asym_matches(s, r, k, e.c.type == SA_KEY_TYPE_RSA, *e.c.ek, &why);
            SA(s, key_release, k);
        }
    }
}
void one(Rng& r, uint64_t index) {
    sa_uuid me = index % 4 ? mk_uuid((uint8_t) r.range(1, 200)) : UUID_REE;
    Sess s(index % 4 != 0, me);
    Env e{r, s, soc_rand(r, true), "", {}, {}};
    Soc& c = e.c;
    if (!c.ta.empty() && r.chance(80))
        c.ta[r.coin() ? c.ta.size() - 1 : r.below(c.ta.size())] = r.chance(15) ? UUID_ALL : me;
    Bytes sealed = soc_seal(c, &e.tag);
    e.payload = jtext(soc_fields(c, sealed, &r), &r);
    Bytes good = soc_pack(e.payload, e.tag, r.pick({HD, "{\"alg\":\"A128GCM\",\"x\":[1]}", " { \"typ\" : null, \"alg\" : \"A128GCM\" } "}));
    accept(e, good, c, strf("v%d:%s", c.version, c.key_type.c_str()).c_str());
    cov(strf("root:%d", c.root));
    nontrivial(hash_bytes(good.data(), good.size()));
    sample(strf("v%d %s root=%d usage=%d/%d tas=%zu params=%d", c.version, c.key_type.c_str(), c.root, c.usage, c.decrypted, c.ta.size(), c.has_params));
    size_t d2 = good.size() - 1;
    while (good[d2] != '.')
        d2--;
    for (size_t i = 0, n = r.range(4, 10); i < n; i++)
        switch (r.below(12)) {
            case 0: {
                Bytes b = good;
                b.resize(r.below(b.size()));
                if (b.empty())
                    b.push_back('.');
                refuse(e, b, "cut");
                break;
            }
            case 1: {   // anything may come of this, but no harm
                std::string p = jtext(soc_fields(c, sealed));
                for (size_t k = r.range(1, 4); k--;)
                    p = mutate_text(r, p, (int) r.below(6));
                refuse(e, soc_pack(p, e.tag, HD), "edited payload", 1);
                break;
            }
            case 2: {
                std::string what, in = jtext(soc_fields(c, sealed)), h = HD;
                if (r.chance(20))
                    h = hostile_json(r, h, &what);
                else
                    in = hostile_json(r, in, &what);
                refuse(e, soc_pack(in, e.tag, h.c_str()), "hostile structure: " + what, 1, true);
                break;
            }
            case 3: {
                Bytes b = good;
                for (size_t k = r.range(1, 3); k--;)
                    b[r.below(b.size())] = r.coin() ? (uint8_t) r.below(256) : '.';
                refuse(e, b, "edited text", 1);
                break;
            }
            case 4: case 5: case 6: case 7: unseal_attack(e); break;
            default: malformed(e);
        }
    accept(e, good, c, "afterwards");
}
}
Harness harness() {
    return {"each case: a random SoC container (19 key types, versions 4-255, both roots, all usages, TA lists, parameters) imported and compared with what it states, then "
            "every stated value altered, properly sealed malformed containers, edited and hostile texts; non-trivial: distinct containers accepted", init, one, nullptr};
}
