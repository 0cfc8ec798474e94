// C13: a signature reported as made verifies under the key's own public key; what cannot be honoured is refused.
#include "ops.hpp"
namespace {
struct SP {
    sa_sign_parameters_ecdsa ec{};
    sa_sign_parameters_rsa_pss pss{};
    sa_sign_parameters_rsa_pkcs1v15 v15{};
};
std::map<sa_elliptic_curve, std::vector<EKey>> g_ec;
void init() {
    Rng r(13);
    ops_warmup(r);
    for (auto c : curves_all())
        for (int i = 0; i < 3; i++)
            g_ec[c].push_back(ec_generate(r, c));
}
size_t sig_len(sa_signature_algorithm alg, sa_elliptic_curve c, size_t rsa) {
    return alg == SA_SIGNATURE_ALGORITHM_ECDSA   ? 2 * curve_size(c)
           : alg == SA_SIGNATURE_ALGORITHM_EDDSA ? (c == SA_ELLIPTIC_CURVE_ED25519 ? 64 : 114)
                                                 : rsa;
}
EVP_PKEY* pub_of(Sess& s, sa_key k) {
    Bytes d;
    sa_status st = key_pub(s, k, &d);
    if (st != SA_STATUS_OK)
        viol("public-refused", "the public key of a signing key was refused: %s", status_name(st));
    const uint8_t* p = d.data();
    EVP_PKEY* pub = d2i_PUBKEY(nullptr, &p, (long) d.size());
    if (!pub)
        viol("public-malformed", "the public key is not a SubjectPublicKeyInfo: %s", hex(d).c_str());
    return pub;
}
struct Key {
    sa_key h = INVALID_HANDLE;
    bool rsa = false, sym = false;
    size_t size = 0;       // RSA bytes
    sa_elliptic_curve c{};
    EVP_PKEY* pub = nullptr;
    std::string what;
};
Key make(Sess& s, Rng& r) {
    Key k;
    sa_rights all = rights_all();
    unsigned o = (unsigned) r.below(20);
    if (o == 0) {
        k.sym = true;
        k.h = must_sym(s, r.bytes(r.pick({16, 32, 64, 128})));
        k.what = "symmetric";
        return k;
    }
    EVP_PKEY* expect = nullptr;
    if (o < 8) {
        k.rsa = true;
        k.size = r.pick({128, 128, 256, 256, 384, 512});
        const EKey& e = rsa_pool(k.size, r.below(rsa_pool_count(k.size)));
        k.h = must_rsa(s, e);
        expect = e.pkey;
        k.what = strf("rsa-%zu", k.size);
    } else {
        k.c = r.pick(curves_all());
        k.what = curve_name(k.c);
        if (r.chance(30)) {
            sa_generate_parameters_ec gp = {k.c};
            sa_status st = SA(s, key_generate, &k.h, &all, SA_KEY_TYPE_EC, &gp);
            if (st != SA_STATUS_OK)
                viol("generate-refused", "generating a %s key gave %s", k.what.c_str(), status_name(st));
        } else {
            EKey& e = g_ec[k.c][r.below(3)];
            k.h = must_ec(s, e);
            expect = e.pkey;
        }
    }
    if (r.chance(15)) {   // the key may have been away
        Bytes e;
        sa_key k2;
        HCHECK(key_export(s, k.h, nullptr, &e) == SA_STATUS_OK);
        sa_status st = SA(s, key_import, &k2, SA_KEY_FORMAT_EXPORTED, e.data(), e.size(), nullptr);
        if (st != SA_STATUS_OK)
            viol("reimport-refused", "%s", status_name(st));
        SA(s, key_release, k.h);
        k.h = k2;
    }
    k.pub = pub_of(s, k.h);
    if (expect && EVP_PKEY_eq(k.pub, expect) != 1)
        viol("public-other", "the public key reported for a %s key is not that of the imported key", k.what.c_str());
    return k;
}
void one(Rng& r, uint64_t index) {
    Sess s(index % 4 != 0);
    Key k = make(s, r);
    Finally f{[&] {
        SA(s, key_release, k.h);
        EVP_PKEY_free(k.pub);
    }};
    size_t n = k.rsa ? (k.size >= 384 ? r.range(1, 2) : r.range(2, 6)) : r.range(4, 16);
    for (size_t i = 0; i < n; i++) {
        static const sa_signature_algorithm ALGS[] = {SA_SIGNATURE_ALGORITHM_ECDSA, SA_SIGNATURE_ALGORITHM_EDDSA, SA_SIGNATURE_ALGORITHM_RSA_PSS,
                SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15};
        bool nist = !k.rsa && !k.sym && curve_is_nist(k.c);
        bool ed = !k.rsa && !k.sym && (k.c == SA_ELLIPTIC_CURVE_ED25519 || k.c == SA_ELLIPTIC_CURVE_ED448);
        sa_signature_algorithm alg = k.rsa ? (r.coin() ? ALGS[2] : ALGS[3]) : ed ? ALGS[1] : ALGS[0];
        bool good = k.rsa || nist || ed;
        if (r.chance(10) || !good) {
            alg = r.pick(ALGS);
            good = (k.rsa && (alg == ALGS[2] || alg == ALGS[3])) || (nist && alg == ALGS[0]) || (ed && alg == ALGS[1]);
            if (r.chance(5))
                alg = (sa_signature_algorithm) r.pick({4, 5, 255, 0x7fffffff}), good = false;
        }
        sa_digest_algorithm d = DIGESTS[r.below(4)], m = r.coin() ? d : DIGESTS[r.below(4)];
        size_t L = sig_len(alg, k.c, k.size);
        bool pre = alg != SA_SIGNATURE_ALGORITHM_EDDSA && r.coin();
        size_t maxsalt = k.rsa ? k.size - digest_len(d) - 2 : 0;
        size_t salt = r.pick({(size_t) 0, digest_len(d), maxsalt, (size_t) r.below(maxsalt + 1), (size_t) r.below(maxsalt + 1)});
        if (salt > maxsalt)
            salt = maxsalt;
        Bytes in;
        std::string bad = good ? "" : "algorithm";
        if (pre) {
            size_t dl = digest_len(d);
            if (good && r.chance(25)) {
                size_t w = r.pick({dl - 1, dl + 1, (size_t) 0, (size_t) 20, (size_t) 32, (size_t) 48, (size_t) 64, (size_t) r.below(200)});
                if (w != dl)
                    dl = w, bad = "digest-length";
            }
            in = r.bytes(dl);
            if (bad.empty() && r.chance(10))
                memset(in.data(), r.pick({0, 255}), in.size());
        } else
            in = r.bytes(r.below(5) == 0 ? r.below(5000) : r.below(3) == 0 ? r.pick({0, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129}) : r.below(200));
        if (good && alg == ALGS[2] && r.chance(15)) {
            salt = r.pick({maxsalt + 1, maxsalt + 2, k.size, (size_t) 0x7fffffff, (size_t) 0x80000000u, (size_t) 0xffffffff, (size_t) 0x100000000ull,
                    (size_t) 0x100000000ull + digest_len(d), SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 2, SIZE_MAX - digest_len(d)});
            bad = "salt";
        }
        if (good && !ed && r.chance(4)) {
            d = (sa_digest_algorithm) r.pick({4, 100, 0x7fffffff});
            bad = "digest";
        } else if (good && alg == ALGS[2] && r.chance(4)) {
            m = (sa_digest_algorithm) r.pick({4, 100, 0x7fffffff});
            bad = "mgf1-digest";
        }
        SP sp;
        sp.ec.digest_algorithm = d, sp.ec.precomputed_digest = pre;
        sp.pss.digest_algorithm = d;
        sp.pss.mgf1_digest_algorithm = m;
        sp.pss.salt_length = salt;
        sp.pss.precomputed_digest = pre;
        sp.v15.digest_algorithm = d, sp.v15.precomputed_digest = pre;
        void* params = alg == ALGS[0] ? (void*) &sp.ec : alg == ALGS[2] ? (void*) &sp.pss : alg == ALGS[3] ? (void*) &sp.v15 : nullptr;
        if (bad.empty() && r.chance(20)) {
            size_t q = r.below(3) ? r.below(300) : 0;
            sa_status st = SA(s, crypto_sign, nullptr, &q, alg, k.h, in.data(), in.size(), params);
            if (st != SA_STATUS_OK || q != L)
                viol("size-query", "%s: the size query gave %s and %zu, the signature has %zu bytes", k.what.c_str(), status_name(st), q, L);
        }
        if (good && bad.empty() && r.chance(10))
            bad = "short";
        size_t cap = bad == "short" ? r.below(L) : r.coin() ? L : L + r.below(100);
        if (!good && cap < 600 && r.coin())
            cap = 600;
        GBuf ib(in), o(cap);
        size_t ol = cap;
        trace("sign %s alg %d digest %d mgf %d salt %zu pre %d in %zu cap %zu bad %s", k.what.c_str(), alg, d, m, salt, pre, in.size(), cap, bad.c_str());
        sa_status st = SA(s, crypto_sign, o.p, &ol, alg, k.h, in.empty() && r.coin() ? nullptr : ib.p, ib.n, params);
        if (!bad.empty()) {
            if (st == SA_STATUS_OK)
                viol("bad-accepted:" + bad, "%s alg %d: parameters that cannot be honoured (%s; digest %d of %zu bytes, salt %zu) were answered with OK, length %zu",
                        k.what.c_str(), alg, bad.c_str(), d, in.size(), salt, ol);
            if (o.get() != Bytes(cap, 0xA5))
                viol("refused-written:" + bad, "a refused signature wrote to its output");
            cov("refused:" + bad);
            continue;
        }
        if (st != SA_STATUS_OK)
            viol(strf("refused:%d", alg), "%s alg %d digest %d mgf %d salt %zu pre %d, %zu bytes: refused with %s", k.what.c_str(), alg, d, m, salt, pre, in.size(),
                    status_name(st));
        if (ol != L)
            viol("length", "%s: a signature of %zu bytes was reported as %zu", k.what.c_str(), L, ol);
        Bytes sig = o.get(0, L);
        for (size_t j = L; j < cap; j++)
            if (o.p[j] != 0xA5)
                viol("written-past", "%s: byte %zu after a signature of %zu bytes was written", k.what.c_str(), j, L);
        if (ib.get() != in)
            viol("input-changed", "the data to sign was changed");
        const EVP_MD* md = ed ? nullptr : ref_md(d);
        if (!verify_sig(k.pub, alg, md, alg == ALGS[2] ? ref_md(m) : nullptr, (int) salt, pre, k.c, in, sig))
            viol(strf("does-not-verify:%d", alg), "%s alg %d digest %d mgf %d salt %zu pre %d, %zu bytes: the signature %s does not verify under the key's public key",
                    k.what.c_str(), alg, d, m, salt, pre, in.size(), hex(sig, 140).c_str());
        cov(strf("verified:%s", k.what.c_str()));
        cov(strf("alg:%d%s", alg, pre ? ":precomputed" : ""));
        if (alg == ALGS[0] && (sig[0] == 0 || sig[L / 2] == 0) && k.c != SA_ELLIPTIC_CURVE_NIST_P521)
            cov("ecdsa-leading-zero");
        if (alg == ALGS[2])
            cov(salt == 0 ? "pss-salt:none" : salt == maxsalt ? "pss-salt:max" : "pss-salt:other");
        nontrivial(hash_bytes(sig.data(), sig.size()));
    }
    if (index % 2000 == 0)
        sample(strf("case seed %" PRIu64 ": %zu signatures with a %s key", g_case_seed, n, k.what.c_str()));
}
}   // namespace
Harness harness() {
    return {"sequences of signatures with keys of every type, curve, size and origin, all algorithms, digests, salts, precomputed and not, with unusable "
            "parameters mixed in. Distinct: signatures made and verified",
            init, one, nullptr};
}
