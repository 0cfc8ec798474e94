#include "containers.hpp"

std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            o += '\\';
        if ((unsigned char) c < 0x20)
            o += strf("\\u%04x", c);
        else
            o += c;
    }
    return o + "\"";
}
static std::string ws(Rng* r) {
    if (!r || !r->chance(20))
        return "";
    return r->pick({" ", "\n", "\t ", "\r\n"});
}
std::string jtext(const JMap& m, Rng* r) {
    JMap o = m;
    if (r)
        for (size_t i = o.size(); i > 1; i--)
            std::swap(o[i - 1], o[r->below(i)]);
    std::string t = ws(r) + "{";
    for (size_t i = 0; i < o.size(); i++)
        t += (i ? "," : "") + ws(r) + jstr(o[i].name) + ws(r) + ":" + ws(r) + o[i].raw + ws(r);
    return t + "}" + ws(r);
}
JField* jfind(JMap& m, const std::string& name) {
    for (auto& f : m)
        if (f.name == name)
            return &f;
    return nullptr;
}
void jdrop(JMap& m, const std::string& name) {
    for (size_t i = 0; i < m.size(); i++)
        if (m[i].name == name)
            m.erase(m.begin() + (long) i--);
}
std::string b64std(const Bytes& in) {
    std::string o((in.size() + 2) / 3 * 4 + 1, 0);
    int n = EVP_EncodeBlock((uint8_t*) o.data(), in.data(), (int) in.size());
    o.resize((size_t) n);
    return o;
}
std::string uuid_text(const sa_uuid& u, bool upper) {
    std::string o;
    for (int i = 0; i < 16; i++) {
        if (i == 4 || i == 6 || i == 8 || i == 10)
            o += '-';
        o += strf(upper ? "%02X" : "%02x", u.id[i]);
    }
    return o;
}
std::string iso_time(int64_t t) {
    time_t tt = (time_t) t;
    struct tm tm;
    gmtime_r(&tt, &tm);
    return strf("%04d-%02d-%02dT%02d:%02d:%02dZ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
}
static sa_uuid rand_uuid(Rng& r) {
    sa_uuid u;
    r.fill(&u, sizeof u);
    return u;
}

// ---------------------------------------------------------------- TypeJ
static const char* const TJ_ALGS[4] = {"aesEcbNone", "aesEcbPkcs5", "aesCbcNone", "aesCbcPkcs5"};
TypeJ typej_rand(Rng& r) {
    TypeJ t;
    t.version = (int) r.below(4);
    t.kcipher = r.bytes(r.pick({16, 32}));
    t.khmac = r.bytes(r.chance(60) ? 32 : r.range(16, 128));
    t.alg = t.version < 2 ? 0 : (int) r.below(4);
    bool padded = t.alg & 1;
    t.content = r.bytes(r.chance(50) ? r.pick({16, 32}) : padded ? r.range(16, r.chance(80) ? 80 : 512) : 16 * r.range(1, r.chance(80) ? 6 : 32));
    t.iv = r.bytes(16);
    size_t n = r.chance(10) ? 63 : r.below(40);
    for (size_t i = 0; i < n; i++)
        t.id += r.chance(3) ? r.pick({'"', '\\', '\n'}) : (char) r.range(' ', '~');
    n = r.chance(70) ? 16 : r.below(40);
    for (size_t i = 0; i < n; i++)
        t.right_list.push_back(i < 4 || r.chance(5) ? r.pick<uint8_t>({0, 1, 2, 3, 4, 5, 5, 8, 8}) : 0);
    if (t.right_list.empty())
        t.right_list.push_back(0);
    t.usage = (int) r.below(3);
    t.nb = r.chance(20) ? 0 : (int64_t) r.below(2000000000);
    t.noa = r.chance(10) ? -1 : r.chance(10) ? 253402300799ll :   // -1: how the format writes no limit
            r.chance(10) ? (int64_t) r.below(4) : t.nb + (int64_t) r.below(4000000000ull);
    t.cacheable = r.coin();
    if (r.chance(t.version == 3 ? 75 : 15)) {
        t.tas = (int) r.pick<size_t>({1, 2, 3, 31, 32, 0});
        for (int i = 0; i < t.tas; i++)
            t.ta.push_back(rand_uuid(r));
    }
    return t;
}
Bytes typej_wrapped(const TypeJ& t) {
    secret(t.content, "a symmetric key");
    Bytes in = t.alg & 1 ? pkcs7(t.content) : t.content;
    return t.alg < 2 ? ref_ecb(t.kcipher, in, true) : ref_cbc(t.kcipher, t.iv, in, true);
}
JMap typej_fields(const TypeJ& t, Rng* r) {
    JMap m;
    auto add = [&](const char* n, const std::string& raw) { m.push_back({n, raw}); };
    if (t.version)
        add("contentKeyContainerVersion", strf("%d", t.version));
    if (t.version >= 2) {
        add("contentKeyTransportAlgorithm", jstr(TJ_ALGS[t.alg]));
        if (t.alg >= 2)
            add("contentKeyTransportIv", jstr(b64std(t.iv)));
        add("contentKeyLength", strf("%zu", t.content.size()));
    }
    add("contentKey", jstr(b64std(typej_wrapped(t))));
    add("contentKeyId", jstr(t.id));
    add("contentKeyRights", jstr(b64std(t.right_list)));
    add("contentKeyUsage", strf("%d", t.usage));
    add("contentKeyNotBefore", jstr(iso_time(t.nb)));
    add("contentKeyNotOnOrAfter", jstr(iso_time(t.noa)));
    add("contentKeyCacheable", t.cacheable ? "true" : "false");
    if (t.tas >= 0) {
        std::string a = "[";
        for (size_t i = 0; i < t.ta.size(); i++)
            a += (i ? "," : "") + jstr(uuid_text(t.ta[i], r && r->coin()));
        add("entitledTaIds", a + "]");
    }
    if (r && r->chance(30))
        add(r->pick({"x", "contentkey", "contentKeyIdX", ""}), r->pick({"1", "\"y\"", "null", "[1,[2,{\"a\":[]}]]", "{\"contentKeyUsage\":0}", "-1.5e3", "true"}));
    return m;
}
sa_rights typej_rights(const TypeJ& t, const sa_rights& kcipher) {
    sa_rights x;
    memset(&x, 0, sizeof x);
    memcpy(x.id, t.id.data(), t.id.size());
    x.not_before = (uint64_t) t.nb;
    x.not_on_or_after = (uint64_t) t.noa;
    auto bit = [&](int f) { x.usage_flags |= SA_USAGE_BIT_MASK(f); };
    bool svp = false, analog = false, cgmsa = false;
    for (uint8_t v : t.right_list) {
        svp |= v == 1;
        analog |= v == 5;
        cgmsa |= v == 8;
        if (v == 2)
            bit(SA_USAGE_FLAG_ALLOWED_DIGITAL_DTCP);
        if (v == 3)
            bit(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14);
        if (v == 4)
            bit(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22);
    }
    if (!svp)
        bit(SA_USAGE_FLAG_SVP_OPTIONAL);
    if (analog) {
        bit(SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA);
        if (!cgmsa)
            bit(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED);
    }
    if (t.usage != 2)
        for (int f : {SA_USAGE_FLAG_DECRYPT, SA_USAGE_FLAG_ENCRYPT, SA_USAGE_FLAG_SIGN, SA_USAGE_FLAG_DERIVE})
            bit(f);
    if (t.usage != 1)
        bit(SA_USAGE_FLAG_UNWRAP);
    if (t.cacheable)
        bit(SA_USAGE_FLAG_CACHEABLE);
    if (t.tas < 0)
        x.allowed_tas[0] = UUID_ALL;
    for (size_t i = 0; i < t.ta.size(); i++)
        x.allowed_tas[i] = t.ta[i];
    // what the wrapping key passes on
    uint64_t deny = ~kcipher.usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK;
    if (!(kcipher.usage_flags & SA_KEY_USAGE_MASK & ~SA_USAGE_BIT_MASK(SA_USAGE_FLAG_UNWRAP)) && kcipher.child_usage_flags)
        deny |= ~kcipher.child_usage_flags & SA_KEY_USAGE_MASK;
    x.usage_flags &= ~deny;
    return x;
}
static Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
Bytes jwt(const std::string& header, const std::string& payload, const std::function<Bytes(const Bytes&)>& mac) {
    Bytes hp = cat({b64url(B(header)), B("."), b64url(B(payload))});
    return cat({hp, B("."), b64url(mac(hp))});
}
Bytes typej_pack(const std::string& payload, const Bytes& khmac, const char* header) {
    return jwt(header, payload, [&](const Bytes& hp) { return ref_hmac(SA_DIGEST_ALGORITHM_SHA256, khmac, hp); });
}

// ---------------------------------------------------------------- SoC
struct SocType { const char* name; sa_key_type type; size_t size; sa_elliptic_curve curve; bool hmac; };
static const sa_elliptic_curve NC = (sa_elliptic_curve) 0;
static const SocType ST[] = {
        {"AES-128", SA_KEY_TYPE_SYMMETRIC, 16, NC, false},
        {"AES-256", SA_KEY_TYPE_SYMMETRIC, 32, NC, false},
        {"CHACHA20-256", SA_KEY_TYPE_SYMMETRIC, 32, NC, false},
        {"HMAC-128", SA_KEY_TYPE_SYMMETRIC, 16, NC, true},
        {"HMAC-160", SA_KEY_TYPE_SYMMETRIC, 20, NC, true},
        {"HMAC-256", SA_KEY_TYPE_SYMMETRIC, 32, NC, true},
        {"RSA-1024", SA_KEY_TYPE_RSA, 128, NC, false},
        {"RSA-2048", SA_KEY_TYPE_RSA, 256, NC, false},
        {"RSA-3072", SA_KEY_TYPE_RSA, 384, NC, false},
        {"RSA-4096", SA_KEY_TYPE_RSA, 512, NC, false},
        {"ECC-P192", SA_KEY_TYPE_EC, 24, SA_ELLIPTIC_CURVE_NIST_P192, false},
        {"ECC-P224", SA_KEY_TYPE_EC, 28, SA_ELLIPTIC_CURVE_NIST_P224, false},
        {"ECC-P256", SA_KEY_TYPE_EC, 32, SA_ELLIPTIC_CURVE_NIST_P256, false},
        {"ECC-P384", SA_KEY_TYPE_EC, 48, SA_ELLIPTIC_CURVE_NIST_P384, false},
        {"ECC-P521", SA_KEY_TYPE_EC, 66, SA_ELLIPTIC_CURVE_NIST_P521, false},
        {"ECC-ED25519", SA_KEY_TYPE_EC, 32, SA_ELLIPTIC_CURVE_ED25519, false},
        {"ECC-ED448", SA_KEY_TYPE_EC, 57, SA_ELLIPTIC_CURVE_ED448, false},
        {"ECC-X25519", SA_KEY_TYPE_EC, 32, SA_ELLIPTIC_CURVE_X25519, false},
        {"ECC-X448", SA_KEY_TYPE_EC, 56, SA_ELLIPTIC_CURVE_X448, false},
};
const std::vector<std::string>& soc_types() {
    static std::vector<std::string> v = [] {
        std::vector<std::string> o;
        for (auto& t : ST)
            o.push_back(t.name);
        return o;
    }();
    return v;
}
Soc soc_rand(Rng& r, bool any_type) {
    static std::map<sa_elliptic_curve, std::vector<EKey>> ec;
    Soc c;
    const SocType& t = ST[any_type ? r.below(ARRAY_N(ST)) : r.below(6)];
    c.key_type = t.name;
    c.type = t.type;
    c.size = t.size;
    c.curve = t.curve;
    c.hmac = t.hmac;
    if (t.type == SA_KEY_TYPE_RSA) {
        c.ek = &rsa_pool(t.size, r.below(rsa_pool_count(t.size)));
        c.key = c.ek->priv;
    } else if (t.type == SA_KEY_TYPE_EC) {
        auto& v = ec[t.curve];
        if (v.size() < 3) {
            Rng own(0x50c0 + (uint64_t) t.curve);   // whichever case comes first
            v.reserve(3);
            while (v.size() < 3)
                v.push_back(ec_generate(own, t.curve));
        }
        c.ek = &v[r.below(v.size())];
        c.key = c.ek->priv;
    } else
        c.key = r.bytes(t.size);
    c.version = r.pick({4, 5, 5, 6, 255});
    c.root = c.version >= 5 ? (int) r.below(3) - 1 : -1;
    c.iv = r.bytes(12);
    c.c1 = r.bytes(16);
    c.c2 = r.bytes(16);
    c.c3 = r.bytes(16);
    c.usage = c.hmac ? r.pick({1, 3}) : (int) r.range(1, 3);
    c.decrypted = (int) r.range(1, 3);
    if (r.coin()) {
        size_t n = r.pick<size_t>({1, 2, 3, 31, 32});
        for (size_t i = 0; i < n; i++)
            c.ta.push_back(rand_uuid(r));
    }
    c.has_params = r.chance(60);
    c.params.length[0] = (uint8_t) (sizeof(sa_import_parameters_soc) >> 8);
    c.params.length[1] = (uint8_t) sizeof(sa_import_parameters_soc);
    c.params.version = r.pick<uint8_t>({2, 3});
    c.params.default_rights = rights_all();
    c.params.object_id = r.chance(30) ? r.below(256) : r.next();
    return c;
}
Bytes soc_aad(const Soc& c) {
    Bytes a = B("A128GCM");
    a.push_back((uint8_t) c.version);
    if (c.version >= 5 && c.root >= 0)
        app(a, B(c.root ? "common" : "unique"));
    app(a, B(c.key_type));
    a.push_back((uint8_t) c.usage);
    if (c.usage == 2)
        a.push_back((uint8_t) c.decrypted);
    for (const Bytes* x : {&c.iv, &c.c1, &c.c2, &c.c3})
        app(a, *x);
    for (auto& u : c.ta)
        app(a, B(uuid_text(u)));
    return a;
}
Bytes soc_seal(const Soc& c, Bytes* tag) {
    if (c.type == SA_KEY_TYPE_SYMMETRIC)
        secret(c.key, "a symmetric key");
    else
        secret_private(c.key);
    Bytes k = ref_ladder(c.root == 1 ? common_root_key() : root_key(), c.c1, c.c2, c.c3, nullptr);
    return ref_gcm_enc(k, c.iv, soc_aad(c), c.key, tag);
}
JMap soc_fields(const Soc& c, const Bytes& sealed, Rng* r) {
    JMap m;
    auto add = [&](const char* n, const std::string& raw) { m.push_back({n, raw}); };
    add("containerVersion", strf("%d", c.version));
    if (c.version >= 5 && c.root >= 0)
        add("rootKeyType", c.root ? "\"common\"" : "\"unique\"");
    add("keyType", jstr(c.key_type));
    add("encryptedKey", jstr(b64std(sealed)));
    add("iv", jstr(b64std(c.iv)));
    add("keyUsage", strf("%d", c.usage));
    if (c.usage == 2)
        add("decryptedKeyUsage", strf("%d", c.decrypted));
    if (!c.ta.empty()) {
        std::string a = "[";
        for (size_t i = 0; i < c.ta.size(); i++)
            a += (i ? "," : "") + jstr(uuid_text(c.ta[i], r && r->chance(20)));
        add("entitledTaIds", a + "]");
    }
    add("c1", jstr(b64std(c.c1)));
    add("c2", jstr(b64std(c.c2)));
    add("c3", jstr(b64std(c.c3)));
    if (r && r->chance(30))
        add(r->pick({"x", "keytype", "c4", ""}), r->pick({"1", "\"y\"", "null", "[1,[2,{\"a\":[]}]]", "{\"keyUsage\":3}", "-1.5e3", "true"}));
    return m;
}
static uint64_t soc_usage(const Soc& c, int u) {
    uint64_t f = 0;
    auto bit = [&](int b) { f |= SA_USAGE_BIT_MASK(b); };
    if (u != 2) {
        if (c.type == SA_KEY_TYPE_EC)
            bit(SA_USAGE_FLAG_KEY_EXCHANGE);
        if (!(u == 1 && c.hmac)) {
            bit(SA_USAGE_FLAG_DECRYPT);
            bit(SA_USAGE_FLAG_ENCRYPT);
        }
        bit(SA_USAGE_FLAG_SIGN);
        bit(SA_USAGE_FLAG_DERIVE);
    }
    if (u != 1)
        bit(SA_USAGE_FLAG_UNWRAP);
    return f;
}
sa_rights soc_rights(const Soc& c) {
    sa_rights x;
    memset(&x, 0, sizeof x);
    if (c.has_params)
        for (int i = 0; i < 8; i++)
            x.id[i] = (char) (c.params.object_id >> (56 - 8 * i));
    x.not_on_or_after = UINT64_MAX;
    x.usage_flags = SA_USAGE_BIT_MASK(SA_USAGE_FLAG_CACHEABLE) | SA_USAGE_OUTPUT_PROTECTIONS_MASK | soc_usage(c, c.usage);
    if (c.usage == 2)
        x.child_usage_flags = soc_usage(c, c.decrypted);
    if (c.ta.empty())
        x.allowed_tas[0] = UUID_ALL;
    for (size_t i = 0; i < c.ta.size(); i++)
        x.allowed_tas[i] = c.ta[i];
    return x;
}
Bytes soc_pack(const std::string& payload, const Bytes& tag, const char* header) {
    return jwt(header, payload, [&](const Bytes&) { return tag; });
}

// ---------------------------------------------------------------- hostile contents
std::string mutate_text(Rng& r, std::string s, int kind) {
    if (s.empty())
        return "x";
    size_t at = r.below(s.size());
    switch (kind % 6) {
        case 0: s[at] = (char) (s[at] ^ (1 << r.below(8))); break;
        case 1: s[at] = (char) r.below(256); break;
        case 2: s.erase(at, r.range(1, 8)); break;
        case 3: s.insert(at, s.substr(r.below(s.size()), r.range(1, 12))); break;
        case 4: s.resize(at); break;
        default: s.insert(at, r.pick({"{", "}", "[", "]", "\"", ",", ":", "null", "-", "1e999", "\\u0000", "\\ud800", "99999999999999999999"})); break;
    }
    return s;
}
std::string hostile_json(Rng& r, const std::string& inner, std::string* what) {
    size_t n = r.pick<size_t>({1, 100, 1000, 3000, 6000});
    std::string o;
    auto rep = [&](const std::string& t, size_t k) {
        for (size_t i = 0; i < k; i++)
            o += t;
    };
    switch (r.below(8)) {
        case 0: *what = "nested arrays"; rep("[", n); rep("]", n); return r.coin() ? o : inner.substr(0, inner.rfind('}')) + ",\"x\":" + o + "}";
        case 1: *what = "nested maps"; rep("{\"a\":", n); o += "1"; rep("}", n); return r.coin() ? o : inner.substr(0, inner.rfind('}')) + ",\"x\":" + o + "}";
        case 2: *what = "many elements"; o = inner.substr(0, inner.rfind('}')) + ",\"entitledTaIds\":["; rep("\"\",", n); return o + "1]}";
        case 3: *what = "many fields"; o = inner.substr(0, inner.rfind('}')); for (size_t i = 0; i < n; i++) o += strf(",\"k%zu\":%zu", i, i); return o + "}";
        case 4: *what = "unclosed"; rep(r.pick({"[", "{\"a\":", "[{\"a\":["}), n); return o;
        case 5: *what = "long name"; return inner.substr(0, inner.rfind('}')) + ",\"" + std::string(r.pick<size_t>({255, 256, 70000}), 'k') + "\":1}";
        case 6: *what = "not a map"; return r.pick({"", " ", "1", "\"a\"", "null", "[]", "true", "{}", "[{}]", "{\"a\"}", "1.5", "\"", "{}{}", "[1 2]"});
        default: *what = "many nulls"; o = inner.substr(0, inner.rfind('}')) + ",\"entitledTaIds\":["; rep("null,", n); return o + "null]}";
    }
}
void on_small_stack(const std::function<void()>& f) {
    struct Arg { const std::function<void()>* f; bool aborted; } a{&f, false};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 192 << 10);
    pthread_t t;
    HCHECK(pthread_create(&t, &at, [](void* p) -> void* {
        auto* a = (Arg*) p;
        try {
            (*a->f)();
        } catch (CaseAbort&) {
            a->aborted = true;
        }
        return nullptr;
    }, &a) == 0);
    pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
    if (a.aborted)
        throw CaseAbort();
}
