// C24: TypeJ containers import only if authentic, and with exactly the rights they state.
#include "containers.hpp"
namespace {
struct Env {
    Rng& r;
    Sess& s;
    TypeJ t;
    sa_rights kr;
    sa_key kc, km;
    Bytes last;
};
sa_status import(Env& e, const Bytes& c, sa_key* k) {
    GBuf g(c);
    sa_import_parameters_typej p{e.kc, e.km};
    *k = INVALID_HANDLE;
    sa_status st = SA(e.s, key_import, k, SA_KEY_FORMAT_TYPEJ, g.p, c.size(), &p);
    if (!g.guards_ok() || g.get() != c)
        viol("import-wrote", "importing changed the container");
    if (st != SA_STATUS_OK && *k != INVALID_HANDLE)
        viol("handle-after-refusal", "import gave %s and wrote handle %llu", status_name(st), (unsigned long long) *k);
    return st;
}
// the key has what the container states
void check_key(Env& e, sa_key k, const TypeJ& t, const char* how) {
    sa_header h;
    memset(&h, 0xEE, sizeof h);
    sa_status st = SA(e.s, key_header, &h, k);
    if (st != SA_STATUS_OK)
        viol("header", "key_header gave %s", status_name(st));
    sa_rights want = typej_rights(t, e.kr);
    if (!rights_equal(h.rights, want))
        viol(strf("rights:%s", how), "the key has rights %s, the container states %s", rights_str(h.rights).c_str(), rights_str(want).c_str());
    if (h.type != SA_KEY_TYPE_SYMMETRIC || h.size != t.content.size())
        viol(strf("type:%s", how), "the key is of type %u and %u bytes, the container states %zu", h.type, h.size, t.content.size());
    int64_t nb = (int64_t) want.not_before, noa = (int64_t) want.not_on_or_after;
    bool listed = t.tas < 0;
    for (auto& u : t.ta)
        listed |= u == e.s.uuid;
    if (nb >= noa || !listed)
        return cov("unusable");
    for (int i = 0; i < 3; i++) {
        w_time = i == 0 ? nb : i == 1 ? noa - 1 : nb + (int64_t) e.r.below((uint64_t) (noa - nb));
        std::string why;
        if (!sym_matches(e.s, k, t.content, &why))
            viol(strf("material:%s", how), "not the content key: %s", why.c_str());
    }
    w_time = noa;
    Bytes d;
    if (key_digest(e.s, k, SA_DIGEST_ALGORITHM_SHA256, &d) == SA_STATUS_OK)
        viol("after-expiry", "the key's material is usable at its end");
    w_time = 1700000000;
    cov("material-checked");
}
void accept(Env& e, const std::string& payload, const TypeJ& t, const char* how, const char* header = "{\"alg\":\"HS256\",\"kid\":\"k\"}") {
    uint64_t live = ta_live_blocks();
    sa_key k;
    e.last = typej_pack(payload, t.khmac, header);
    trace("accept %s: %s", how, payload.c_str());
    sa_status st = import(e, e.last, &k);
    if (st != SA_STATUS_OK)
        viol(strf("refused-genuine:%s", how), "a genuine container gave %s", status_name(st));
    check_key(e, k, t, how);
    if ((st = SA(e.s, key_release, k)) != SA_STATUS_OK)
        viol("release", "key_release gave %s", status_name(st));
    if (ta_live_blocks() != live)
        viol("kept:accepted", "import and release leave %lld blocks", (long long) (ta_live_blocks() - live));
    cov(std::string("accepted:") + how);
}
// want: 0 refuse, 1 either
void refuse(Env& e, const Bytes& c, const std::string& what, int want = 0, bool small = false) {
    uint64_t live = ta_live_blocks();
    sa_key k;
    trace("refuse %s: %s", what.c_str(), std::string(c.begin(), c.begin() + (long) std::min<size_t>(c.size(), 900)).c_str());
    sa_status st = SA_STATUS_OK;
    if (small)
        on_small_stack([&] { st = import(e, c, &k); });
    else
        st = import(e, c, &k);
    if (st == SA_STATUS_OK) {
        if (want == 0)
            viol(strf("accepted:%s", what.c_str()), "a container with %s was imported", what.c_str());
        cov("either-accepted:" + what);
        SA(e.s, key_release, k);
    } else
        cov((want ? "either-refused:" : "refused:") + what);
    if (ta_live_blocks() != live)
        viol(strf("kept:%s", what.c_str()), "an import with %s leaves %lld blocks", what.c_str(), (long long) (ta_live_blocks() - live));
}
std::string repack(const JMap& m, Rng& r) { return jtext(m, r.coin() ? &r : nullptr); }

void text_attack(Env& e) {
    Rng& r = e.r;
    const Bytes good = e.last;
    Bytes c = good;
    size_t d1 = (size_t) (std::find(c.begin(), c.end(), '.') - c.begin());
    size_t d2 = (size_t) (std::find(c.begin() + (long) d1 + 1, c.end(), '.') - c.begin());
    static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    std::string what;
    switch (r.below(9)) {
        case 0:   // another character in the authenticated text
        case 1: {
            size_t at = r.below(d2);
            uint8_t o = c[at];
            do
                c[at] = r.coin() ? (uint8_t) AL[r.below(64)] : r.coin() ? (uint8_t) r.below(256) : (uint8_t) (o ^ (1 << r.below(8)));
            while (c[at] == o);
            what = "altered text";
            break;
        }
        case 2: {   // another MAC
            size_t at = d2 + 1 + r.below(43);
            size_t v = (size_t) (strchr(AL, c[at]) - AL), w;
            do
                w = r.below(64);
            while (at == d2 + 43 ? v >> 2 == w >> 2 : v == w);
            c[at] = (uint8_t) AL[w];
            what = "altered MAC";
            break;
        }
        case 3: c.resize(r.below(c.size() - 1)); what = "cut"; break;
        case 4: {   // a shorter, longer or empty MAC
            Bytes hp(c.begin(), c.begin() + (long) d2), m = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, e.t.khmac, hp);
            size_t n = r.pick<size_t>({0, 1, 16, 31, 33, 64});
            m.resize(n);
            c = cat({hp, Bytes(1, '.'), b64url(m)});
            what = "MAC of another length";
            break;
        }
        case 5: {   // the right MAC of another key or text
            Bytes hp(c.begin(), c.begin() + (long) d2), key = e.t.khmac;
            Bytes over = hp;
            switch (r.below(5)) {
                case 0: key[r.below(key.size())] ^= 1; break;
                case 1: over.assign(hp.begin() + (long) d1 + 1, hp.end()); break;
                case 2: over.assign(hp.begin(), hp.begin() + (long) d1); break;
                case 3: over.erase(over.begin() + (long) d1); break;
                default: key = r.bytes(key.size());
            }
            c = cat({hp, Bytes(1, '.'), b64url(ref_hmac(SA_DIGEST_ALGORITHM_SHA256, key, over))});
            what = "MAC of something else";
            break;
        }
        case 6: {
            Bytes hp(c.begin(), c.begin() + (long) d2);
            auto alg = r.pick({SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA384, SA_DIGEST_ALGORITHM_SHA512});
            Bytes m = ref_hmac(alg, e.t.khmac, hp);
            if (r.coin())
                m.resize(32);
            c = cat({hp, Bytes(1, '.'), b64url(m)});
            what = "MAC of another digest";
            break;
        }
        case 7: {   // pieces moved about
            Bytes a(c.begin(), c.begin() + (long) d1), b(c.begin() + (long) d1 + 1, c.begin() + (long) d2), m(c.begin() + (long) d2 + 1, c.end());
            Bytes dot(1, '.');
            switch (r.below(6)) {
                case 0: c = cat({b, dot, a, dot, m}); break;
                case 1: c = cat({a, dot, m}); break;
                case 2: c = cat({a, dot, b}); break;
                case 3: c = cat({a, dot, b, dot}); break;
                case 4: c = cat({a, dot, b, dot, m, dot, m}); break;
                default: c = cat({dot, b, dot, m}); break;
            }
            what = "pieces missing or moved";
            break;
        }
        default: {
            Bytes x = r.bytes(r.below(300));
            for (size_t i = 0, n = r.below(5); i < n && !x.empty(); i++)
                x[r.below(x.size())] = '.';
            if (r.coin())
                for (auto& b : x)
                    if (b != '.' )
                        b = (uint8_t) AL[b & 63];
            if (x.empty())
                x.push_back('.');
            c = x;
            what = "noise";
        }
    }
    refuse(e, c, what);
}
void field_attack(Env& e) {
    Rng& r = e.r;
    const TypeJ& t = e.t;
    JMap m = typej_fields(t, nullptr);
    std::string what;
    int want = 0;
    auto set = [&](const char* name, const std::string& raw) {
        if (JField* f = jfind(m, name))
            f->raw = raw;
        else
            m.push_back({name, raw});
    };
    const std::string other = r.pick({"null", "{}", "[]", "[\"AAAA\"]", "1.5", "{\"a\":1}"});
    switch (r.below(13)) {
        case 0: {
            std::vector<const char*> names = {"contentKeyId", "contentKeyRights", "contentKeyUsage", "contentKeyNotBefore", "contentKeyNotOnOrAfter",
                    "contentKeyCacheable", "contentKey"};
            if (t.version >= 2) {
                names.push_back("contentKeyTransportAlgorithm");
                names.push_back("contentKeyLength");
                if (t.alg >= 2)
                    names.push_back("contentKeyTransportIv");
            }
            const char* n = r.pick(names);
            jdrop(m, n);
            if (r.coin())
                m.push_back({std::string(n) + "x", "1"});
            what = strf("no %s", n);
            break;
        }
        case 1: {
            std::vector<const char*> names = {"contentKeyId", "contentKeyRights", "contentKeyNotBefore", "contentKeyNotOnOrAfter", "contentKey"};
            if (t.version >= 2) {
                names.push_back("contentKeyTransportAlgorithm");
                if (t.alg >= 2)
                    names.push_back("contentKeyTransportIv");
            }
            const char* n = r.pick(names);
            set(n, r.chance(30) ? r.pick({"1", "true"}) : other);
            what = strf("%s of another type", n);
            break;
        }
        case 2:
            set("contentKeyUsage", r.pick({"\"1\"", "true", "null", "1.0", "[1]", "{}", "4", "-1", "255", "256", "257", "4294967296", "4294967297", "-4294967295",
                    "9223372036854775807", "18446744073709551616"}));
            what = "another usage: " + jfind(m, "contentKeyUsage")->raw;
            break;
        case 3:
            set("contentKeyContainerVersion", r.pick({"0", "4", "-1", "5", "\"2\"", "null", "2.0", "4294967298", "[]", "{}", "true"}));
            what = "another version: " + jfind(m, "contentKeyContainerVersion")->raw;
            break;
        case 4: {   // times
            const char* n = r.coin() ? "contentKeyNotBefore" : "contentKeyNotOnOrAfter";
            std::string v = r.pick({"", "2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00:00+", "2020-01-01 00:00:00Z", "2020-13-01T00:00:00Z", "2020-00-01T00:00:00Z",
                    "2020-01-32T00:00:00Z", "2020-01-00T00:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:62Z", "xxxx-01-01T00:00:00Z",
                    "1969-12-31T23:59:58Z", "1960-01-01T00:00:00Z", "0000-00-00T00:00:00Z", "2020-01-01T00:00:00ZZ", "2020-01-01T00:00:0Zx", "2020-1-1T0:0:0Zxxxxxx",
                    "2020-01-01T00:00:00.000Z", "2020-1-01T00:00:00ZZ", "-001-01-01T00:00:00Z"});
            set(n, jstr(v));
            what = strf("%s %s", n, v.c_str());
            break;
        }
        case 5: {   // rights list
            Bytes l = t.right_list;
            int k = (int) r.below(3);
            std::string text;
            if (k == 0) {
                l[r.below(l.size())] = r.pick<uint8_t>({6, 7, 9, 16, 128, 255});
                text = b64std(l);
                what = "an unknown right";
            } else if (k == 1) {
                text = b64std(cat({Bytes(3, 5), l}));
                text[4 + r.below(text.size() - 4)] = r.pick({'!', '.', '\x7f', '*', '"'});
                what = "rights in bad base64";
            } else {
                text = b64std(cat({l, Bytes(3, 1)}));
                while (text.back() == '=')
                    text.pop_back();
                text.resize(text.size() / 4 * 4 - r.range(1, 3));
                what = "rights in cut base64";
            }
            set("contentKeyRights", jstr(text));
            break;
        }
        case 6: {
            std::string text = b64std(typej_wrapped(t));
            int k = (int) r.below(4);
            if (k == 0) {
                text[r.below(text.size() - 2)] = '!';
                what = "content key in bad base64";
            } else if (k == 1) {
                text = "";
                what = "no content key text";
            } else if (k == 2) {
                Bytes w = typej_wrapped(t);
                w.resize(w.size() - r.range(1, 15));
                text = b64std(w);
                what = "content key of part of a block";
            } else {
                text.resize(text.size() - (text[text.size() - 2] == '=' ? 2 : text.back() == '=' ? 1 : r.range(1, 3)));
                what = "content key in cut base64";
            }
            set("contentKey", jstr(text));
            break;
        }
        case 7:
            if (t.version < 2)
                return;
            set("contentKeyTransportAlgorithm", jstr(r.pick({"", "aesEcbNon", "aesEcbNone2", "aesEcbNONE", "aesCtr", "aes", "AESECBNONE", "aesEcbPkcs7", "none", "\n"})));
            what = "another transport algorithm";
            break;
        case 8:
            if (t.version < 2)
                return;
            if (t.alg >= 2 && r.coin()) {
                Bytes iv = r.bytes(r.pick<size_t>({0, 1, 12, 15, 17, 32, 300}));
                set("contentKeyTransportIv", jstr(b64std(iv)));
                what = "IV of another length";
            } else {
                set("contentKeyLength", r.pick<std::string>({"0", "-1", strf("%zu", t.content.size() + 1), strf("%zu", t.content.size() - 1),
                        strf("%llu", (1ull << 32) + t.content.size()), jstr(strf("%zu", t.content.size())), "null", "true", "16.0", "[]"}));
                what = "another content key length";
            }
            break;
        case 9: {   // TA list
            std::string good = jstr(uuid_text(mk_uuid(7)));
            std::string bad = r.pick<std::string>({"1", "null", "true", "[]", "{}", "\"\"", jstr(uuid_text(mk_uuid(7)).substr(1)), jstr(uuid_text(mk_uuid(7)) + "0"),
                    jstr("zz" + uuid_text(mk_uuid(7)).substr(2)), jstr(uuid_text(mk_uuid(7)).substr(0, 35) + "x"), jstr(std::string(36, '-')), jstr(std::string(36, ' ')),
                    jstr(std::string(40000, 'f'))});
            int k = (int) r.below(4);
            if (k == 0)
                set("entitledTaIds", r.pick({"null", "1", "true", "\"00000000-0000-0000-0000-000000000001\"", "{}", "{\"a\":\"00000000-0000-0000-0000-000000000001\"}", "1.5"})), what = "TA list of another type";
            else if (k == 1) {
                std::string l = "[";
                for (size_t i = 0, n = r.pick<size_t>({33, 34, 64, 500}); i < n; i++)
                    l += (i ? "," : "") + good;
                set("entitledTaIds", l + "]");
                what = "too many TAs";
            } else {
                size_t n = r.below(32), at = r.below(n + 1);
                std::string l = "[";
                for (size_t i = 0; i <= n; i++)
                    l += (i ? "," : "") + (i == at ? bad : good);
                set("entitledTaIds", l + "]");
                what = "a malformed TA id";
            }
            break;
        }
        case 10:
            set("contentKeyId", jstr(std::string(r.pick<size_t>({64, 65, 100, 255, 256, 5000}), 'i')));
            what = "an identifier too long";
            break;
        case 11:
            set("contentKeyCacheable", r.pick({"1", "0", "\"true\"", "null", "[true]"}));
            what = "cacheable of another type";
            want = 1;
            break;
        default: {   // the content key's padding
            if (t.version < 2 || !(t.alg & 1))
                return;
            Bytes in = t.content;
            in.resize(in.size() / 16 * 16 + 15);
            in.push_back(r.pick<uint8_t>({0, 17, 32, 255}));
            if (r.coin() && in.size() > 16) {
                in.resize(in.size() - 1);
                in.push_back(5), in[in.size() - 3] = 9;
            }
            TypeJ u = t;
            u.alg &= 2;
            u.content = in;
            set("contentKey", jstr(b64std(typej_wrapped(u))));
            set("contentKeyLength", r.pick<std::string>({strf("%zu", in.size()), strf("%zu", t.content.size()), strf("%zu", in.size() - 17)}));
            what = "bad padding";
        }
    }
    refuse(e, typej_pack(repack(m, r), t.khmac), what, want);
}
void one(Rng& r, uint64_t index) {
    w_time_on = true;
    w_time = 1700000000;
    w_video_on = true;
    memset(&w_video, 0, sizeof w_video);
    w_video.svp_enabled = true;
    sa_uuid me = index % 4 ? mk_uuid((uint8_t) r.range(1, 200)) : UUID_REE;
    Sess s(index % 4 != 0, me);
    Env e{r, s, typej_rand(r), rights_all(), 0, 0, {}};
    if (e.t.tas > 0 && r.chance(70))
        e.t.ta[r.coin() ? e.t.ta.size() - 1 : r.below(e.t.ta.size())] = r.chance(15) ? UUID_ALL : me;
    bool all_ta = false;
    for (auto& u : e.t.ta)
        all_ta |= u == UUID_ALL;
    if (r.coin()) {
        e.kr.usage_flags = (r.next() & rights_all().usage_flags & ~(uint64_t) SA_KEY_USAGE_MASK) | SA_USAGE_BIT_MASK(SA_USAGE_FLAG_UNWRAP);
        if (r.chance(30))
            e.kr.usage_flags |= SA_USAGE_BIT_MASK(SA_USAGE_FLAG_DECRYPT);
        e.kr.child_usage_flags = r.pick<uint64_t>({0, SA_KEY_USAGE_MASK, r.next() & SA_KEY_USAGE_MASK, SA_USAGE_BIT_MASK(SA_USAGE_FLAG_DECRYPT)});
    }
    sa_rights mr = rights_all();
    e.kc = must_sym(s, e.t.kcipher, &e.kr);
    e.km = must_sym(s, e.t.khmac, &mr);
    if (all_ta)
        cov("ta-list-with-all");
    const TypeJ& t = e.t;
    std::string payload = jtext(typej_fields(t, &r), &r);
    const char* hd = r.pick({"{\"alg\":\"HS256\",\"kid\":\"k\"}", "{\"alg\":\"HS256\"}", "{}", "{\"typ\":\"JWT\",\"alg\":\"HS256\",\"x\":[1]}"});
    accept(e, payload, t, strf("v%d:alg%d", t.version, t.alg).c_str(), hd);
    nontrivial(hash_bytes(e.last.data(), e.last.size()));
    sample(strf("v%d alg%d content=%zu usage=%d tas=%d cacheable=%d", t.version, t.alg, t.content.size(), t.usage, t.tas, t.cacheable));
    for (size_t i = 0, n = r.range(4, 10); i < n; i++) {
        switch (r.below(10)) {
            case 0: case 1: case 2: text_attack(e); break;
            case 3: case 4: case 5: case 6: case 7: field_attack(e); break;
            case 8: {   // anything may come of this, but no harm
                std::string p = jtext(typej_fields(t, nullptr));
                for (size_t k = r.range(1, 4); k--;)
                    p = mutate_text(r, p, (int) r.below(6));
                refuse(e, typej_pack(p, t.khmac), "edited payload", 1);
                break;
            }
            default: {
                std::string what, in = jtext(typej_fields(t, nullptr)), h = "{\"alg\":\"HS256\"}";
                if (r.chance(20))
                    h = hostile_json(r, h, &what);
                else
                    in = hostile_json(r, in, &what);
                refuse(e, typej_pack(in, t.khmac, h.c_str()), "hostile structure: " + what, 1, true);
            }
        }
    }
    // and nothing of that stays: the genuine one still imports, twice
    accept(e, payload, t, "afterwards");
    for (sa_key k : {e.kc, e.km})
        if (SA(s, key_release, k) != SA_STATUS_OK)
            viol("bystander", "the wrapping keys are gone");
}
}
Harness harness() {
    return {"each case: a random TypeJ container (versions 1-3, 4 transport algorithms, all fields) imported and compared with what it states, then altered texts, "
            "re-authenticated containers with malformed fields, edited payloads and hostile JSON; non-trivial: distinct containers accepted", nullptr, one, nullptr};
}
