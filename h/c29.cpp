// C29: random output is fresh, complete and never repeats; what is generated or randomised with it never repeats either.
#include "ops.hpp"
#include <sys/mman.h>
#include <unistd.h>
namespace {
std::mutex mu;
std::unordered_set<uint64_t> windows;   // 8-byte windows of random output, all calls, threads and sessions of this worker
std::set<Bytes> values;                 // things that must be unique: public keys, digests of keys, signature parts, protected blocks
struct Pos {   // for one kind of value: what was seen at each position
    uint64_t n = 0;
    std::vector<uint8_t> first;
    std::vector<uint8_t> ones, zeros;   // bits ever set, ever clear
    std::vector<std::set<uint8_t>> seen;
};
std::map<std::string, Pos> pos;
void init() {
    Rng r(29);
    ops_warmup(r);
}
void unique(const std::string& kind, const Bytes& v) {
    std::lock_guard<std::mutex> g(mu);
    Bytes k(kind.begin(), kind.end());
    app(k, v);
    if (!values.insert(k).second)
        viol(strf("repeated:%s", kind.c_str()), "a %s came up twice: %s", kind.c_str(), hex(v).c_str());
    cov("unique:" + kind);
}
void positions(const std::string& kind, const Bytes& v) {
    std::lock_guard<std::mutex> g(mu);
    Pos& p = pos[strf("%s/%zu", kind.c_str(), v.size())];
    if (p.n++ == 0) {
        p.ones.assign(v.size(), 0);
        p.zeros.assign(v.size(), 0);
    }
    for (size_t i = 0; i < v.size(); i++) {
        p.ones[i] |= v[i];
        p.zeros[i] |= ~v[i];
    }
}
// Enough samples to be sure of every bit: each bit takes both values but with probability 2^-59 or less
void judge() {
    for (auto& kv : pos) {
        if (kv.second.n < 60)
            continue;
        cov("positions-judged");
        for (size_t i = 0; i < kv.second.ones.size(); i++)
            if (kv.second.ones[i] != 0xff || kv.second.zeros[i] != 0xff)
                viol(strf("constant:%s", kv.first.substr(0, kv.first.find('/')).c_str()), "in %" PRIu64 " values of %s, bits 0x%02x of byte %zu never changed", kv.second.n,
                        kv.first.c_str(), (uint8_t) ~(kv.second.ones[i] & kv.second.zeros[i]), i);
    }
}
// random bytes: no window repeats, none is left as it was, bits are balanced
void judge_bytes(const char* what, const Bytes& b) {
    std::lock_guard<std::mutex> g(mu);
    if (windows.size() > 3000000)
        windows.clear();
    for (size_t i = 0; i + 8 <= b.size(); i += 8) {
        uint64_t w;
        memcpy(&w, &b[i], 8);
        if (!windows.insert(w).second)
            viol(strf("repeated-window:%s", what), "%s: 8 bytes at %zu of %zu came before: %s", what, i, b.size(), hex(&b[i], 8).c_str());
    }
    if (b.size() >= 256) {
        size_t ones = 0;
        for (uint8_t x : b)
            ones += __builtin_popcount(x);
        double n = 8.0 * b.size(), dev = ((double) ones - n / 2);
        if (dev * dev > 81 * n / 4)   // nine standard deviations
            viol(strf("biased:%s", what), "%s: %zu of %zu bits are set", what, ones, b.size() * 8);
    }
}
// fills[]: the same request over memory filled differently: every byte must come from the source
void t_random(Sess& s, Rng& r) {
    size_t n = r.chance(20) ? r.below(5) : r.chance(40) ? r.pick({15, 16, 17, 32, 255, 256, 257, 1023, 1024, 4096}) : r.chance(10) ? r.range(5000, 70000) : r.range(5, 3000);
    GBuf a(n);
    sa_status st = SA(s, crypto_random, a.p, n);
    if (!a.guards_ok())
        viol("random-overrun", "crypto_random of %zu bytes wrote past its buffer", n);
    if (n == 0)
        return;
    if (st != SA_STATUS_OK)
        viol("random-refused", "crypto_random of %zu bytes gave %s", n, status_name(st));
    judge_bytes("random", a.get());
    if (n <= 64 || n == 256 || n == 1024 || n == 4096)
        positions("random", a.get());
    // the ends: 30 short requests, or whatever is left untouched 12 bytes running
    for (size_t i = 0, run = 0; i < n; i++) {
        run = a.p[i] == 0xA5 ? run + 1 : 0;
        if (run == 8)
            viol("random-unfilled", "crypto_random of %zu bytes left bytes %zu to %zu as they were", n, i - 7, i);
    }
    if (r.chance(20)) {
        for (size_t m = 1; m <= 12; m++)
            for (int k = 0; k < 6; k++) {
                GBuf b(m);
                if (SA(s, crypto_random, b.p, m) != SA_STATUS_OK || !b.guards_ok())
                    viol("random-short", "crypto_random of %zu bytes failed or wrote past its end", m);
                positions("random", b.get());
            }
    }
    cov("random");
}
void t_threads(Rng& r, bool direct) {   // sessions side by side, and threads sharing one
    size_t n = r.pick({16, 32, 64}), nt = r.range(2, 6), k = 20;
    bool share = r.coin();
    std::vector<Bytes> out(nt);
    std::vector<std::unique_ptr<Sess>> ss;
    for (size_t i = 0; i < (share ? 1 : nt); i++)
        ss.emplace_back(new Sess(direct || !share));
    std::atomic<int> bad{0};
    std::vector<std::thread> th;
    std::atomic<bool> go{false};
    for (size_t t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            Sess& s = *ss[share ? 0 : t];
            while (!go)
                ;
            for (size_t j = 0; j < k; j++) {
                Bytes b(n, 0xA5);
                sa_status st = s.direct ? ta_sa_crypto_random(b.data(), n, s.slot, &s.uuid) : sa_crypto_random(b.data(), n);
                if (st != SA_STATUS_OK)
                    bad++;
                app(out[t], b);
            }
        });
    go = true;
    for (auto& t : th)
        t.join();
    if (bad)
        viol("random-refused:threads", "%d of %zu concurrent requests failed", (int) bad, nt * k);
    for (auto& o : out)
        judge_bytes("random in threads", o);
    cov(share ? "threads:one-session" : "threads:own-sessions");
}
void t_generate(Sess& s, Rng& r) {
    sa_rights all = rights_all();
    sa_key k = INVALID_HANDLE;
    sa_status st;
    w_otp_material.clear();
    w_otp_on = true;
    Finally off{[] { w_otp_on = false; }};
    unsigned g = (unsigned) r.below(10);
    auto material = [&](bool pad) {   // what was stored, when the monitor saw it
        w_otp_on = false;
        Bytes m;
        if (!w_otp_material.empty()) {
            m = w_otp_material.back();
            if (pad && !m.empty() && m.back() <= 16 && m.back() <= m.size())
                m.resize(m.size() - m.back());
        }
        return m;
    };
    if (g < 6) {
        size_t n = r.chance(60) ? r.pick({16, 32, 64, 128}) : r.range(16, 512);
        sa_generate_parameters_symmetric p = {n};
        st = SA(s, key_generate, &k, &all, SA_KEY_TYPE_SYMMETRIC, &p);
        if (st != SA_STATUS_OK)
            viol("generate-refused", "generating %zu bytes gave %s", n, status_name(st));
        Finally f{[&] { SA(s, key_release, k); }};
        Bytes m = material(true), d;
        if ((st = key_digest(s, k, SA_DIGEST_ALGORITHM_SHA256, &d)) != SA_STATUS_OK)
            viol("generate-digest", "%s", status_name(st));
        unique("generated-key", d);
        if (m.size() == n && ref_digest(SA_DIGEST_ALGORITHM_SHA256, m) == d) {
            judge_bytes("generated key", m);
            positions("generated-key", m);
            cov("material-seen");
        }
        sa_header h;
        if (SA(s, key_header, &h, k) != SA_STATUS_OK || h.size != n || h.type != SA_KEY_TYPE_SYMMETRIC)
            viol("generate-header", "a generated key of %zu bytes has size %d", n, h.size);
        // exports of it: no IV, protected block or code repeats
        Bytes c;
        for (int i = 0; i < 3; i++) {
            if ((st = key_export(s, k, nullptr, &c)) != SA_STATUS_OK)
                viol("export", "%s", status_name(st));
            size_t tail = (n / 16 + 1) * 16 + 32;
            HCHECK(c.size() > tail);
            for (size_t j = c.size() - tail; j + 16 <= c.size(); j += 16)
                unique("export-block", Bytes(c.begin() + j, c.begin() + j + 16));
        }
    } else if (g < 9) {
        auto cv = r.pick(curves_all());
        sa_generate_parameters_ec p = {cv};
        st = SA(s, key_generate, &k, &all, SA_KEY_TYPE_EC, &p);
        if (st != SA_STATUS_OK)
            viol("generate-refused", "generating a %s key gave %s", curve_name(cv), status_name(st));
        Finally f{[&] { SA(s, key_release, k); }};
        Bytes m = material(true), pub;
        if ((st = key_pub(s, k, &pub)) != SA_STATUS_OK)
            viol("generate-public", "%s", status_name(st));
        unique("generated-public", pub);
        const uint8_t* q = pub.data();
        EVP_PKEY* pk = d2i_PUBKEY(nullptr, &q, (long) pub.size());
        if (!pk)
            viol("generate-public", "the public key of a generated %s key does not parse", curve_name(cv));
        EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pk, nullptr);
        bool ok = !curve_is_nist(cv) || EVP_PKEY_public_check(c) == 1;
        EVP_PKEY_CTX_free(c);
        EVP_PKEY_free(pk);
        if (!ok)
            viol("generate-public", "the public key of a generated %s key is not valid", curve_name(cv));
        if (!m.empty()) {
            const uint8_t* mp = m.data();
            EVP_PKEY* sk = d2i_AutoPrivateKey(nullptr, &mp, (long) m.size());
            if (sk && pub_der(sk) == pub) {
                Bytes raw;
                size_t len = 0;
                if (EVP_PKEY_get_raw_private_key(sk, nullptr, &len) == 1) {
                    raw.resize(len);
                    EVP_PKEY_get_raw_private_key(sk, raw.data(), &len);
                    positions(strf("private %s", curve_name(cv)), raw);
                } else {
                    BIGNUM* d = nullptr;
                    EVP_PKEY_get_bn_param(sk, "priv", &d);
                    raw.resize(curve_size(cv));
                    BN_bn2binpad(d, raw.data(), (int) raw.size());
                    BN_free(d);
                    if (cv == SA_ELLIPTIC_CURVE_NIST_P521)   // its first byte holds one bit
                        raw.erase(raw.begin());
                    positions(strf("private %s", curve_name(cv)), raw);
                }
                unique("generated-private", raw);
                cov("private-seen");
            }
            EVP_PKEY_free(sk);
        }
    } else {
        const DhGroup& d = dh_group();
        sa_generate_parameters_dh p = {d.p.data(), d.p.size(), d.g.data(), d.g.size()};
        st = SA(s, key_generate, &k, &all, SA_KEY_TYPE_DH, &p);
        if (st != SA_STATUS_OK)
            viol("generate-refused", "generating a Diffie-Hellman key gave %s", status_name(st));
        Finally f{[&] { SA(s, key_release, k); }};
        w_otp_on = false;
        Bytes pub;
        if ((st = key_pub(s, k, &pub)) != SA_STATUS_OK)
            viol("generate-public", "%s", status_name(st));
        unique("generated-public", pub);
        positions("dh-public", Bytes(pub.end() - 60, pub.end()));
    }
}
std::map<sa_elliptic_curve, std::vector<EKey>> g_ec;
Bytes rsa_raw(EVP_PKEY* k, const Bytes& sig) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, nullptr);
    HCHECK(EVP_PKEY_verify_recover_init(c) == 1 && EVP_PKEY_CTX_set_rsa_padding(c, RSA_NO_PADDING) == 1);
    Bytes o(sig.size());
    size_t n = o.size();
    HCHECK(EVP_PKEY_verify_recover(c, o.data(), &n, sig.data(), sig.size()) == 1);
    EVP_PKEY_CTX_free(c);
    o.resize(n);
    return o;
}
void t_sign(Sess& s, Rng& r) {   // the same message again and again: ECDSA nonces and PSS salts are new each time
    Bytes in(r.below(40), 0x61);
    auto d = r.pick(DIGESTS);
    if (r.chance(60)) {
        sa_elliptic_curve cv;
        do
            cv = r.pick(curves_all());
        while (!curve_is_nist(cv));
        auto& v = g_ec[cv];
        if (v.empty())
            v.push_back(ec_generate(r, cv));
        sa_key k = must_ec(s, v[0]);
        Finally f{[&] { SA(s, key_release, k); }};
        sa_sign_parameters_ecdsa p;
        p.digest_algorithm = d;
        p.precomputed_digest = false;
        for (int i = 0; i < 4; i++) {
            Bytes sig;
            sa_status st = sign(s, k, SA_SIGNATURE_ALGORITHM_ECDSA, in, &p, &sig);
            if (st != SA_STATUS_OK || sig.size() != 2 * curve_size(cv))
                viol("sign", "ECDSA gave %s and %zu bytes", status_name(st), sig.size());
            unique("ecdsa-r", Bytes(sig.begin(), sig.begin() + curve_size(cv)));   // a repeated nonce gives the key away
            Bytes x(sig.begin() + (cv == SA_ELLIPTIC_CURVE_NIST_P521), sig.begin() + curve_size(cv));
            positions(strf("ecdsa-r %s", curve_name(cv)), x);
        }
    } else {
        const EKey& e = rsa_pool(r.chance(70) ? 128 : 256, 0);
        size_t size = EVP_PKEY_get_bits(e.pkey) / 8, hl = digest_len(d), salt = r.pick({(size_t) 8, (size_t) 20, (size_t) 32});
        sa_key k = must_rsa(s, e);
        Finally f{[&] { SA(s, key_release, k); }};
        sa_sign_parameters_rsa_pss p;
        p.digest_algorithm = d;
        p.precomputed_digest = false;
        p.mgf1_digest_algorithm = d;
        p.salt_length = salt;
        for (int i = 0; i < 3; i++) {
            Bytes sig;
            sa_status st = sign(s, k, SA_SIGNATURE_ALGORITHM_RSA_PSS, in, &p, &sig);
            if (st != SA_STATUS_OK)
                viol("sign", "RSA-PSS gave %s", status_name(st));
            Bytes em = rsa_raw(e.pkey, sig);
            size_t dbl = size - hl - 1;
            Bytes H(em.begin() + dbl, em.begin() + dbl + hl), mask;
            for (uint32_t c = 0; mask.size() < dbl; c++)
                app(mask, ref_digest(d, cat({H, Bytes{(uint8_t) (c >> 24), (uint8_t) (c >> 16), (uint8_t) (c >> 8), (uint8_t) c}})));
            Bytes got;
            for (size_t j = dbl - salt; j < dbl; j++)
                got.push_back(em[j] ^ mask[j]);
            unique("pss-salt", got);
            positions("pss-salt", got);
        }
    }
}
// the system's random source fails: nothing may be made from what it did not give
void t_source_fails(Sess& s, Rng& r) {
    sa_rights all = rights_all();
    GBuf g(r.range(1, 100));
    sa_key k = INVALID_HANDLE, have = must_sym(s, r.bytes(32));
    Finally f{[&] {
        w_rand_result = 1;
        SA(s, key_release, have);
    }};
    w_rand_result = r.pick({0, -1});
    sa_status st;
    const char* what;
    uint64_t live = ta_live_blocks();
    switch (r.below(3)) {
        case 0:
            what = "crypto_random";
            st = SA(s, crypto_random, g.p, g.n);
            break;
        case 1: {
            what = "key_generate";
            sa_generate_parameters_symmetric p = {32};
            st = SA(s, key_generate, &k, &all, SA_KEY_TYPE_SYMMETRIC, &p);
            break;
        }
        default: {
            what = "key_export";
            GBuf e(4096);
            size_t n = e.n;
            st = SA(s, key_export, e.p, &n, nullptr, 0, have);
            break;
        }
    }
    int how = w_rand_result;
    w_rand_result = 1;
    if (st == SA_STATUS_OK)
        viol(strf("source-failed:%s", what), "%s succeeded although the random source answered %d", what, how);
    if (ta_live_blocks() != live)
        viol(strf("source-failed-kept:%s", what), "%s failed with the random source and left %lld blocks", what, (long long) (ta_live_blocks() - live));
    cov(strf("source-failed:%s:%d", what, how));
}
// requests beyond 32 bits, over an address range that maps the same few pages again and again
void t_huge() {
    const size_t piece = 16 << 20, total = (1ull << 32) + piece;
    int fd = memfd_create("verif", 0);
    if (fd < 0 || ftruncate(fd, piece) != 0)
        return;
    auto* p = (uint8_t*) mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        close(fd);
        return;
    }
    bool ok = true;
    for (size_t o = 0; o < total && ok; o += piece)
        ok = mmap(p + o, piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
    if (ok) {
        Sess s(true);
        for (size_t n : {(1ull << 32) + 16, (1ull << 32), (1ull << 31)}) {
            memset(p, 0xA5, piece);
            alarm(600);
            sa_status st = SA(s, crypto_random, p, n);
            size_t left = 0;   // the pages are shared: what was never written still holds the pattern
            for (size_t i = 0; i + 8 <= piece; i += 8) {
                uint64_t w;
                memcpy(&w, p + i, 8);
                left += w == 0xA5A5A5A5A5A5A5A5ull;
            }
            trace("crypto_random of %zu bytes -> %s", n, status_name(st));
            if (st == SA_STATUS_OK && left > 0)
                viol("random-huge", "crypto_random of %zu bytes succeeded and left bytes unwritten", n);
            cov(st == SA_STATUS_OK ? "huge:filled" : "huge:refused");
        }
    }
    munmap(p, total);
    close(fd);
}
void one(Rng& r, uint64_t index) {
    if (values.size() > 600000)
        values.clear();
    if (index == 0)
        t_huge();
    Sess s(index % 4 != 0);
    for (int i = 0; i < 6; i++)
        switch (r.below(10)) {
            case 0: case 1: case 2: t_random(s, r); break;
            case 3: case 4: case 5: t_generate(s, r); break;
            case 6: case 7: t_sign(s, r); break;
            case 8: t_source_fails(s, r); break;
            default: t_threads(r, s.direct); break;
        }
    if (index % 64 == 63)
        judge();
    nontrivial(r.s);
}
}
Harness harness() {
    return {"each case makes 6 draws: random bytes of any length (up to beyond 32 bits once), from one or many threads and sessions; generated keys of every kind, with the "
            "material as the TA stores it; exports; ECDSA and PSS signatures of equal messages; and a failing random source; within a worker no 8-byte window, key, "
            "nonce, salt or protected block may repeat and every bit of every position must take both values; every case counts as non-trivial", init, one, judge};
}
