// C14: derived keys equal an independent computation of the standard derivation.
#include "ops.hpp"
namespace {
struct Parent { sa_key h; Bytes m; bool usable; };
void init() {
    Rng r(14);
    ops_warmup(r);
}
size_t dlen(Rng& r) {   // lengths of derived keys, also those no key can have
    switch (r.below(10)) {
        case 0: return r.pick({0, 1, 15, 513, 514, 600, 1024});
        case 1: return r.pick({16, 20, 32, 48, 64, 128, 512, 511, 510});
        case 2: return 20 * r.range(1, 25) + r.below(3) - 1;
        case 3: return 32 * r.range(1, 16) + r.below(3) - 1;
        case 4: return 64 * r.range(1, 8) + r.below(3) - 1;
        case 5: return r.chance(20) ? r.pick({(size_t) 255 * 20, (size_t) 255 * 20 + 1, (size_t) 255 * 64 + 1, (size_t) 256 * 32, (size_t) 70000,
                    (size_t) 1 << 31, (size_t) 1 << 40, SIZE_MAX}) : 16;
        default: return r.range(16, 512);
    }
}
size_t plen(Rng& r) { return r.chance(30) ? r.pick({16, 32, 63, 64, 65, 127, 128, 129, 511, 512}) : r.range(16, 512); }
Bytes any(Rng& r, size_t max) { return r.bytes(r.chance(20) ? 0 : r.chance(10) ? r.below(2000) : r.below(max)); }
void refuse(Sess& s, const char* what, sa_status st, sa_key k, const std::string& why) {
    if (st == SA_STATUS_OK)
        viol(strf("accepted:%s", what), "%s accepted %s", what, why.c_str());
    if (k != INVALID_HANDLE && k != 777) {
        sa_header h;
        if (SA(s, key_header, &h, k) == SA_STATUS_OK)
            viol(strf("key-after-refusal:%s", what), "%s refused %s and returned a usable key", what, why.c_str());
    }
    cov(strf("refused:%s:%s", what, why.substr(0, why.find(' ')).c_str()));
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    std::vector<Parent> ps;
    Finally fin{[&] {
        for (auto& p : ps)
            SA(s, key_release, p.h);
    }};
    auto add = [&](size_t n) {
        Bytes m = r.bytes(n);
        if (r.chance(10))
            m[0] = 0;
        ps.push_back({must_sym(s, m), m, true});
    };
    add(16), add(32), add(plen(r)), add(plen(r));
    size_t steps = r.range(4, g_thorough ? 30 : 12);
    for (size_t i = 0; i < steps; i++) {
        Parent& p = ps[r.below(ps.size())];
        sa_rights ra = rights_all();
        sa_digest_algorithm d = DIGESTS[r.below(4)];
        Bytes salt = any(r, 150), info = any(r, 150), expect;
        size_t n = dlen(r);
        sa_key k = r.coin() ? INVALID_HANDLE : 777;
        sa_status st;
        const char* what;
        bool valid = n >= 16 && n <= 512;
        std::string bad = strf("length %zu", n);
        uint64_t live = ta_live_blocks();
        auto P = [&](const Bytes& b) -> const void* { return b.empty() ? (r.coin() ? nullptr : (const void*) &b) : b.data(); };
        switch (r.below(7)) {
            case 0: {
                what = "HKDF";
                sa_kdf_parameters_hkdf pa = {n, d, p.h, P(salt), salt.size(), P(info), info.size()};
                if (r.chance(4)) {
                    valid = false, bad = "digest value";
                    pa.digest_algorithm = (sa_digest_algorithm) r.pick({4, 5, 1000});
                } else if (r.chance(3)) {
                    valid = false, bad = "no salt or info";
                    if (r.coin())
                        pa.salt = nullptr, pa.salt_length = r.range(1, 50);
                    else
                        pa.info = nullptr, pa.info_length = r.range(1, 50);
                }
                st = SA(s, key_derive, &k, &ra, SA_KDF_ALGORITHM_HKDF, &pa);
                if (valid)
                    expect = ref_hkdf(d, p.m, salt, info, n);
                break;
            }
            case 1: case 2: {
                bool x = r.coin();
                what = x ? "X963" : "CONCAT";
                sa_kdf_parameters_concat pa = {n, d, p.h, P(info), info.size()};
                sa_kdf_parameters_ansi_x963 px = {n, d, p.h, P(info), info.size()};
                if (r.chance(4)) {
                    valid = false, bad = "digest value";
                    pa.digest_algorithm = px.digest_algorithm = (sa_digest_algorithm) r.pick({4, 5, 1000});
                } else if (r.chance(3)) {
                    valid = false, bad = "no info";
                    pa.info = px.info = nullptr, pa.info_length = px.info_length = r.range(1, 50);
                }
                st = SA(s, key_derive, &k, &ra, x ? SA_KDF_ALGORITHM_ANSI_X963 : SA_KDF_ALGORITHM_CONCAT, x ? (void*) &px : (void*) &pa);
                if (valid)
                    expect = ref_concat(d, p.m, info, n, x);
                break;
            }
            case 3: {
                what = "CMAC";
                uint8_t ctr = (uint8_t) (r.chance(85) ? r.range(1, 4) : r.pick({0, 5, 255}));
                n = r.chance(80) && ctr >= 1 && ctr <= 4 ? 16 * r.range(1, 5 - ctr) : r.pick({0, 8, 16, 24, 32, 48, 64, 80, 1024, 17});
                sa_kdf_parameters_cmac pa = {n, p.h, P(info), info.size(), ctr};
                bool aes = p.m.size() == 16 || p.m.size() == 32;
                valid = aes && ctr >= 1 && ctr <= 4 && n >= 16 && n % 16 == 0 && n / 16 <= (size_t) (5 - ctr);
                bad = aes ? strf("counter-or-length %u %zu", ctr, n) : strf("parent size %zu", p.m.size());
                st = SA(s, key_derive, &k, &ra, SA_KDF_ALGORITHM_CMAC, &pa);
                if (valid)
                    expect = ref_cmac_kdf(p.m, info, ctr, n);
                break;
            }
            case 4: {
                what = "NETFLIX";
                Parent& q = ps[r.below(ps.size())];
                sa_kdf_parameters_netflix pa = {p.h, q.h};
                valid = p.m.size() == 16 && q.m.size() == 32;
                bad = strf("key sizes %zu %zu", p.m.size(), q.m.size());
                st = SA(s, key_derive, &k, &ra, SA_KDF_ALGORITHM_NETFLIX, &pa);
                if (p.m.size() == 16)
                    valid = valid || st == SA_STATUS_OK;   // other HMAC key sizes are as the implementation decides
                expect = ref_netflix_wrap(p.m, q.m);
                break;
            }
            default: {
                bool common = r.coin();
                what = common ? "COMMON_LADDER" : "LADDER";
                Bytes c[4];
                for (auto& x : c)
                    x = r.bytes(16);
                sa_kdf_parameters_root_key_ladder pa = {c[0].data(), 16, c[1].data(), 16, c[2].data(), 16, c[3].data(), 16};
                valid = true;
                if (r.chance(15)) {
                    valid = false, bad = "stage length";
                    const void** cp[] = {&pa.c1, &pa.c2, &pa.c3, &pa.c4};
                    size_t* lp[] = {&pa.c1_length, &pa.c2_length, &pa.c3_length, &pa.c4_length};
                    int w = (int) r.below(4);
                    if (r.coin())
                        *lp[w] = r.pick({(size_t) 0, (size_t) 15, (size_t) 17, (size_t) 32}), c[w].resize(40), *cp[w] = c[w].data();
                    else
                        *cp[w] = nullptr;
                }
                st = SA(s, key_derive, &k, &ra, common ? SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_ROOT_KEY_LADDER, &pa);
                if (valid)
                    expect = ref_ladder(common ? common_root_key() : root_key(), c[0], c[1], c[2], &c[3]);
                break;
            }
        }
        trace("%s length %zu from %zu bytes -> %s", what, n, p.m.size(), status_name(st));
        if (!valid) {
            refuse(s, what, st, k, bad);
            if (ta_live_blocks() != live)
                viol(strf("kept-after-refusal:%s", what), "memory is held after a refused derivation");
            continue;
        }
        if (st != SA_STATUS_OK)
            viol(strf("refused:%s", what), "a valid %s derivation of %zu bytes from a %zu byte key gave %s", what, n, p.m.size(), status_name(st));
        std::string why;
        if (!sym_matches(s, k, expect, &why))
            viol(strf("wrong-key:%s", what), "%s of %zu bytes from a %zu byte parent (digest %d, salt %zu, info %zu): %s", what, expect.size(), p.m.size(), d,
                    salt.size(), info.size(), why.c_str());
        if (!sym_matches(s, p.h, p.m, &why))
            viol(strf("parent-changed:%s", what), "%s", why.c_str());
        cov(strf("derived:%s", what));
        cov(strf("derived-length:%zu", (expect.size() + 31) / 32 * 32));
        nontrivial(hash_bytes(expect.data(), expect.size(), expect.size()));
        if (ps.size() < 12 && r.coin())
            ps.push_back({k, expect, true});   // derived keys are parents too
        else
            SA(s, key_release, k);
    }
    if (index % 2000 == 0)
        sample(strf("case seed %" PRIu64, g_case_seed));
}
}   // namespace
Harness harness() {
    return {"chains of derivations with every algorithm, digest, length, salt, info, parent size and out-of-range values; keys compared by size, "
            "digest and HMAC. Distinct: derived keys",
            init, one, nullptr};
}
