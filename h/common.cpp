#include "common.hpp"
#include <sanitizer/asan_interface.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

bool g_thorough = false, g_verbose = false;
uint64_t g_case_seed = 0;
static std::string g_data;

// ---------------------------------------------------------------- utilities
uint64_t mix64(uint64_t a, uint64_t b) {
    Rng r(a * 0xD1342543DE82EF95ull + b);
    r.next();
    return r.next() ^ b;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    auto* b = (const uint8_t*) p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ b[i]) * 0x100000001b3ull;
    return h ^ (h >> 29);
}
std::string hex(const void* p, size_t n, size_t max) {
    std::string s;
    char t[4];
    for (size_t i = 0; i < n && i < max; i++) {
        snprintf(t, sizeof t, "%02x", ((const uint8_t*) p)[i]);
        s += t;
    }
    if (n > max)
        s += "..(" + std::to_string(n) + ")";
    return s;
}
static std::string vstrf(const char* fmt, va_list ap) {
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    std::string s(n > 0 ? n : 0, 0);
    if (n > 0)
        vsnprintf(&s[0], n + 1, fmt, ap);
    return s;
}
std::string strf(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    auto s = vstrf(fmt, ap);
    va_end(ap);
    return s;
}
size_t Rng::len(size_t max) {
    switch (below(6)) {
        case 0: return below(std::min<size_t>(max, 4) + 1);
        case 1: {
            size_t v = 16 * below(max / 16 + 1) + below(3);
            v = v ? v - 1 : 0;
            return std::min(v, max);
        }
        case 2: return 16 * below(max / 16 + 1);
        case 3: return below(std::min<size_t>(max, 64) + 1);
        default: return below(max + 1);
    }
}

// ---------------------------------------------------------------- verdicts
static std::mutex g_mu;
static std::map<std::string, uint64_t> g_cov;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static FILE* g_viol = nullptr;
static uint64_t g_nviol = 0, g_cases = 0, g_index = 0;
static std::vector<std::string> g_trace;
static std::string g_async_sig, g_async_text;
static std::set<std::string> g_sigs;
struct Status { volatile uint64_t index, seed, done; };
static Status* g_status = nullptr;

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char) c;
        } else if (c < 32 || c > 126)
            o += strf("\\u%04x", c);
        else
            o += (char) c;
    }
    return o + "\"";
}
static void report(const std::string& sig, const std::string& text) {
    std::lock_guard<std::mutex> g(g_mu);
    g_nviol++;
    if (g_verbose)
        fprintf(stderr, "VIOL %s: %s\n", sig.c_str(), text.c_str());
    bool first = g_sigs.insert(sig).second;
    if (g_viol && (first || g_nviol < 50)) {
        std::string t;
        for (auto& l : g_trace)
            t += (t.empty() ? "" : ",") + jstr(l);
        fprintf(g_viol, "{\"sig\":%s,\"text\":%s,\"index\":%" PRIu64 ",\"seed\":%" PRIu64 ",\"trace\":[%s]}\n",
                jstr(sig).c_str(), jstr(text).c_str(), g_index, g_case_seed, t.c_str());
        fflush(g_viol);
    }
}
bool g_muted = false;
// After an injected fault made a call fail, what the program around it finds missing is a consequence of that
static bool follows_fault(const std::string& sig) {
    if (!g_fp || !g_fp->refused)
        return false;
    for (auto* p : {"lock-held", "kept-after", "key-after-refusal"})
        if (sig.rfind(p, 0) == 0)
            return false;
    return true;
}
void viol(const std::string& sig, const char* fmt, ...) {
    if (g_muted || follows_fault(sig))
        throw CaseAbort();
    va_list ap;
    va_start(ap, fmt);
    auto s = vstrf(fmt, ap);
    va_end(ap);
    report(sig, s);
    throw CaseAbort();
}
void viol_async(const std::string& sig, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    auto s = vstrf(fmt, ap);
    va_end(ap);
    std::lock_guard<std::mutex> g(g_mu);
    if (g_async_sig.empty()) {
        g_async_sig = sig;
        g_async_text = s;
    }
}
void harness_error(const char* fmt, ...) {
    if (g_muted || follows_fault(""))
        throw CaseAbort();
    va_list ap;
    va_start(ap, fmt);
    auto s = vstrf(fmt, ap);
    va_end(ap);
    fprintf(stderr, "HARNESS-ERROR case seed %" PRIu64 ": %s\n", g_case_seed, s.c_str());
    fflush(stderr);
    _exit(96);
}
// Threads under test note what they saw on their own (a lock here would order what they do), merged when they have ended
thread_local ThreadNotes* t_notes = nullptr;
void ThreadNotes::merge() {
    for (auto& c : cov)
        ::cov(c.first, c.second);
    for (auto h : distinct)
        nontrivial(h);
}
void cov(const std::string& key, uint64_t n) {
    if (t_notes) {
        t_notes->cov[key] += n;
        return;
    }
    std::lock_guard<std::mutex> g(g_mu);
    g_cov[key] += n;
}
void nontrivial(uint64_t h) {
    if (t_notes) {
        t_notes->distinct.push_back(h);
        return;
    }
    std::lock_guard<std::mutex> g(g_mu);
    g_distinct.insert(h);
}
void sample(const std::string& s) {
    std::lock_guard<std::mutex> g(g_mu);
    if (g_samples.size() < 4)
        g_samples.push_back(s.substr(0, 600));
}
void trace(const char* fmt, ...) {
    if (t_notes)
        return;
    va_list ap;
    va_start(ap, fmt);
    auto s = vstrf(fmt, ap);
    va_end(ap);
    std::lock_guard<std::mutex> g(g_mu);
    if (g_trace.size() < 400)
        g_trace.push_back(s);
    if (g_verbose)
        fprintf(stderr, "  %s\n", s.c_str());
}
const char* status_name(int s) {
    static const char* n[] = {"OK", "NO_AVAILABLE_RESOURCE_SLOT", "INVALID_KEY_FORMAT", "INVALID_KEY_TYPE", "NULL_PARAMETER",
            "INVALID_PARAMETER", "OPERATION_NOT_ALLOWED", "INVALID_SVP_BUFFER", "OPERATION_NOT_SUPPORTED", "SELF_TEST",
            "VERIFICATION_FAILED", "INTERNAL_ERROR", "HW_ERROR"};
    return s >= 0 && s < 13 ? n[s] : "?";
}

// ---------------------------------------------------------------- guarded buffers
static const size_t G = 64;
static const uint8_t GPAT = 0xC3;
bool g_hold_buffers = false;
static std::vector<uint8_t*> g_held;
GBuf::GBuf(size_t n_, int fb) : n(n_) {
    base = (uint8_t*) malloc(G + n + G);
    p = base + G;
    memset(base, GPAT, G);
    memset(p, fb, n);
    memset(p + n, GPAT, G);
#ifdef HAVE_ASAN
    __asan_poison_memory_region(base, G);
    __asan_poison_memory_region(p + n, G);
#endif
}
GBuf::GBuf(const Bytes& b) : GBuf(b.size()) {
    if (n)
        memcpy(p, b.data(), n);
}
bool GBuf::guards_ok() const {
#ifdef HAVE_ASAN
    __asan_unpoison_memory_region(base, G + n + G);
#endif
    bool ok = true;
    for (size_t i = 0; i < G; i++)
        if (base[i] != GPAT || p[n + i] != GPAT)
            ok = false;
#ifdef HAVE_ASAN
    __asan_poison_memory_region(base, G);
    __asan_poison_memory_region(p + n, G);
#endif
    return ok;
}
GBuf::~GBuf() {
    if (!guards_ok())
        viol_async("guard-overwritten", "bytes next to a %zu byte buffer were overwritten", n);
#ifdef HAVE_ASAN
    __asan_unpoison_memory_region(base, G + n + G);
#endif
    if (g_hold_buffers)
        g_held.push_back(base);
    else
        free(base);
}
void release_held_buffers() {
    g_hold_buffers = false;
    for (auto b : g_held)
        free(b);
    g_held.clear();
}

// ---------------------------------------------------------------- sessions
const sa_uuid UUID_REE = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}};
const sa_uuid UUID_ALL = {{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}};
const sa_uuid UUID_NONE = {{0}};
sa_uuid mk_uuid(uint8_t tag) {
    sa_uuid u;
    for (int i = 0; i < 16; i++)
        u.id[i] = (uint8_t) (tag * 7 + i * 13 + 1);
    u.id[15] = tag;
    return u;
}
bool operator==(const sa_uuid& a, const sa_uuid& b) { return memcmp(&a, &b, sizeof a) == 0; }

Sess::Sess(bool d, sa_uuid u) : direct(d), uuid(u) {
    if (direct) {
        sa_status st = ta_sa_init(&slot, &uuid);
        if (st != SA_STATUS_OK)
            viol("session-open-failed", "opening a session gave %s", status_name(st));
    }
    open = true;
}
void Sess::close() {
    if (open && direct)
        ta_sa_close(slot, &uuid);
    open = false;
}
Sess::~Sess() { close(); }
thread_local const sa_uuid* g_as = nullptr;
thread_local FaultPlan* g_fp = nullptr;
thread_local int g_fault_scope = 0;
static thread_local uint64_t g_fp_fired = 0;
void before_call(bool direct, const sa_uuid& u) {
    if (!direct) {
        w_caller = u;
        w_caller_on = true;
    }
    w_in_call = true;
    if (g_fp && g_fault_scope) {
        w_alloc_count = 0;
        w_fail_ossl = g_fp->ossl;
        w_fail_persist = g_fp->persist;
        w_fail_at = g_fp->calls == g_fp->call ? g_fp->at : 0;
        g_fp_fired = w_faults_fired;
        w_alloc_watch = true;
    }
}
static void fault_after(const char* fn, sa_status st) {
    FaultPlan& f = *g_fp;
    w_alloc_watch = false;
    w_fail_at = 0;
    f.seen.push_back({fn, w_alloc_count});
    f.calls++;
    if (w_faults_fired != g_fp_fired) {
        f.fired = true;
        f.refused = st != SA_STATUS_OK;
        f.fn = fn;
        f.st = st;
    }
}
// calls observed in all, and the first ones of a case for the evidence (fixed memory: monitors measure the heap)
static std::atomic<uint64_t> g_calls_ok{0}, g_calls_refused{0};
static std::atomic<bool> g_log_calls{false};
static char g_call_log[480];
static std::atomic<size_t> g_call_at{0};
sa_status after_call(const char* fn, sa_status st) {
    w_in_call = false;
    if (w_alloc_watch && g_fp)
        fault_after(fn, st);
    (st == SA_STATUS_OK ? g_calls_ok : g_calls_refused).fetch_add(1, std::memory_order_relaxed);
    if (!t_notes && g_log_calls) {
        size_t at = g_call_at;
        if (at + 60 < sizeof g_call_log) {
            int n = snprintf(g_call_log + at, sizeof g_call_log - at, " %.30s=%s", fn, status_name(st));
            g_call_at = at + std::min<size_t>(n > 0 ? n : 0, 59);
        }
    }
    if (w_locks_held != 0) {
        int n = w_locks_held;
        w_locks_held = 0;
        viol(strf("lock-held-after:%s", fn), "%s returned %s with %d lock(s) still held", fn, status_name(st), n);
    }
    return st;
}
size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

// ---------------------------------------------------------------- rights and keys
sa_rights rights_all() {
    sa_rights r;
    memset(&r, 0, sizeof r);
    strcpy(r.id, "all");
    r.usage_flags = 0x3fff;
    r.child_usage_flags = 0;
    r.not_before = 0;
    r.not_on_or_after = UINT64_MAX;
    r.allowed_tas[MAX_NUM_ALLOWED_TA_IDS - 1] = UUID_ALL;
    return r;
}
sa_rights rights_rand(Rng& r, bool usable) {
    sa_rights x;
    memset(&x, 0, sizeof x);
    size_t n = r.below(sizeof x.id);
    for (size_t i = 0; i < n; i++)
        x.id[i] = (char) (33 + r.below(90));
    x.usage_flags = r.next() & 0x3fff;
    x.child_usage_flags = r.chance(30) ? r.next() & 0x3fff : 0;
    if (usable)
        x.usage_flags |= SA_USAGE_BIT_MASK(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22);
    int64_t now = w_time_on ? w_time.load() : (int64_t) time(nullptr);
    x.not_before = r.coin() ? 0 : (uint64_t) (now - 1 - (int64_t) r.below(1000000));
    x.not_on_or_after = r.coin() ? UINT64_MAX : (uint64_t) now + 100000 + r.below(1000000);
    for (auto& u : x.allowed_tas)
        switch (r.below(4)) {
            case 0: u = UUID_NONE; break;
            case 1: u = mk_uuid((uint8_t) r.below(256)); break;
            case 2: r.fill(&u, sizeof u); break;
            default: break;
        }
    if (usable)
        x.allowed_tas[r.below(MAX_NUM_ALLOWED_TA_IDS)] = UUID_ALL;
    return x;
}
bool rights_equal(const sa_rights& a, const sa_rights& b) {
    return memcmp(a.id, b.id, sizeof a.id) == 0 && a.usage_flags == b.usage_flags &&
           a.child_usage_flags == b.child_usage_flags && a.not_before == b.not_before &&
           a.not_on_or_after == b.not_on_or_after && memcmp(a.allowed_tas, b.allowed_tas, sizeof a.allowed_tas) == 0;
}
std::string rights_str(const sa_rights& r) {
    return strf("{id=%.63s usage=%" PRIx64 " child=%" PRIx64 " nb=%" PRIu64 " noa=%" PRIu64 " tas=%s}", r.id,
            r.usage_flags, r.child_usage_flags, r.not_before, r.not_on_or_after,
            strf("%016" PRIx64, hash_bytes(r.allowed_tas, sizeof r.allowed_tas)).c_str());
}
const char* curve_name(sa_elliptic_curve c) {
    switch (c) {
        case SA_ELLIPTIC_CURVE_NIST_P192: return "prime192v1";
        case SA_ELLIPTIC_CURVE_NIST_P224: return "secp224r1";
        case SA_ELLIPTIC_CURVE_NIST_P256: return "prime256v1";
        case SA_ELLIPTIC_CURVE_NIST_P384: return "secp384r1";
        case SA_ELLIPTIC_CURVE_NIST_P521: return "secp521r1";
        case SA_ELLIPTIC_CURVE_ED25519: return "ED25519";
        case SA_ELLIPTIC_CURVE_X25519: return "X25519";
        case SA_ELLIPTIC_CURVE_ED448: return "ED448";
        case SA_ELLIPTIC_CURVE_X448: return "X448";
    }
    return "?";
}
bool curve_is_nist(sa_elliptic_curve c) {
    return c <= SA_ELLIPTIC_CURVE_NIST_P521 || c == SA_ELLIPTIC_CURVE_NIST_P192 || c == SA_ELLIPTIC_CURVE_NIST_P224;
}
size_t curve_size(sa_elliptic_curve c) {
    switch (c) {
        case SA_ELLIPTIC_CURVE_NIST_P192: return 24;
        case SA_ELLIPTIC_CURVE_NIST_P224: return 28;
        case SA_ELLIPTIC_CURVE_NIST_P256: return 32;
        case SA_ELLIPTIC_CURVE_NIST_P384: return 48;
        case SA_ELLIPTIC_CURVE_NIST_P521: return 66;
        case SA_ELLIPTIC_CURVE_ED25519: return 32;
        case SA_ELLIPTIC_CURVE_X25519: return 32;
        case SA_ELLIPTIC_CURVE_ED448: return 57;
        case SA_ELLIPTIC_CURVE_X448: return 56;
    }
    return 0;
}
const std::vector<sa_elliptic_curve>& curves_all() {
    static const std::vector<sa_elliptic_curve> v = {SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P384,
            SA_ELLIPTIC_CURVE_NIST_P521, SA_ELLIPTIC_CURVE_ED25519, SA_ELLIPTIC_CURVE_X25519, SA_ELLIPTIC_CURVE_ED448,
            SA_ELLIPTIC_CURVE_X448, SA_ELLIPTIC_CURVE_NIST_P192, SA_ELLIPTIC_CURVE_NIST_P224};
    return v;
}
EVP_PKEY* ec_from_priv(sa_elliptic_curve c, const Bytes& priv) {
    if (!curve_is_nist(c)) {
        int id = c == SA_ELLIPTIC_CURVE_ED25519  ? EVP_PKEY_ED25519
                 : c == SA_ELLIPTIC_CURVE_X25519 ? EVP_PKEY_X25519
                 : c == SA_ELLIPTIC_CURVE_ED448  ? EVP_PKEY_ED448
                                                 : EVP_PKEY_X448;
        return EVP_PKEY_new_raw_private_key(id, nullptr, priv.data(), priv.size());
    }
    int nid = OBJ_txt2nid(curve_name(c));
    EC_GROUP* g = EC_GROUP_new_by_curve_name(nid);
    HCHECK(g);
    BIGNUM* d = BN_bin2bn(priv.data(), (int) priv.size(), nullptr);
    EVP_PKEY* pk = nullptr;
    if (!BN_is_zero(d) && BN_cmp(d, EC_GROUP_get0_order(g)) < 0) {
        EC_POINT* pt = EC_POINT_new(g);
        HCHECK(EC_POINT_mul(g, pt, d, nullptr, nullptr, nullptr));
        Bytes pub(200);
        pub.resize(EC_POINT_point2oct(g, pt, POINT_CONVERSION_UNCOMPRESSED, pub.data(), pub.size(), nullptr));
        EC_POINT_free(pt);
        OSSL_PARAM_BLD* b = OSSL_PARAM_BLD_new();
        OSSL_PARAM_BLD_push_utf8_string(b, "group", curve_name(c), 0);
        OSSL_PARAM_BLD_push_BN_pad(b, "priv", d, curve_size(c));
        OSSL_PARAM_BLD_push_octet_string(b, "pub", pub.data(), pub.size());
        OSSL_PARAM* ps = OSSL_PARAM_BLD_to_param(b);
        EVP_PKEY_CTX* ctx = EVP_PKEY_CTX_new_from_name(nullptr, "EC", nullptr);
        HCHECK(EVP_PKEY_fromdata_init(ctx) == 1);
        HCHECK(EVP_PKEY_fromdata(ctx, &pk, EVP_PKEY_KEYPAIR, ps) == 1);
        EVP_PKEY_CTX_free(ctx);
        OSSL_PARAM_free(ps);
        OSSL_PARAM_BLD_free(b);
    }
    BN_free(d);
    EC_GROUP_free(g);
    return pk;
}
Bytes p8_der(EVP_PKEY* k) {
    PKCS8_PRIV_KEY_INFO* p8 = EVP_PKEY2PKCS8(k);
    HCHECK(p8);
    unsigned char* o = nullptr;
    int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &o);
    HCHECK(n > 0);
    Bytes b(o, o + n);
    OPENSSL_free(o);
    PKCS8_PRIV_KEY_INFO_free(p8);
    return b;
}
EKey ec_generate(Rng& r, sa_elliptic_curve c) {
    EKey e;
    e.curve = c;
    while (!e.pkey) {
        e.raw = r.bytes(curve_size(c));
        if (c == SA_ELLIPTIC_CURVE_NIST_P521)
            e.raw[0] &= 1;
        if (curve_is_nist(c) && r.chance(10))
            e.raw[0] = 0;
        e.pkey = ec_from_priv(c, e.raw);
    }
    e.priv = p8_der(e.pkey);
    e.bits = curve_size(c) * 8;
    return e;
}
static Bytes read_file(const std::string& f) {
    FILE* fp = fopen(f.c_str(), "rb");
    if (!fp)
        return {};
    Bytes b(1 << 16);
    b.resize(fread(b.data(), 1, b.size(), fp));
    fclose(fp);
    return b;
}
static std::map<size_t, std::vector<EKey>>& pool() {
    static std::map<size_t, std::vector<EKey>> m;
    static std::once_flag once;
    std::call_once(once, [] {
        for (size_t sz : {128, 256, 384, 512})
            for (int i = 0;; i++) {
                EKey e;
                e.priv = read_file(g_data + strf("/rsa%zu_%d.der", sz * 8, i));
                if (e.priv.empty())
                    break;
                const unsigned char* q = e.priv.data();
                e.pkey = d2i_AutoPrivateKey(nullptr, &q, (long) e.priv.size());
                HCHECK(e.pkey);
                e.bits = sz * 8;
                m[sz].push_back(e);
            }
    });
    return m;
}
const EKey& rsa_pool(size_t bytes, size_t idx) {
    auto& v = pool()[bytes];
    HCHECK(!v.empty());
    return v[idx % v.size()];
}
size_t rsa_pool_count(size_t bytes) { return pool()[bytes].size(); }
Bytes pub_der(EVP_PKEY* k) {
    unsigned char* o = nullptr;
    int n = i2d_PUBKEY(k, &o);
    HCHECK(n > 0);
    Bytes b(o, o + n);
    OPENSSL_free(o);
    return b;
}
bool secret_private(const Bytes& der) {
    if (!w_scan_on)
        return true;
    const uint8_t* p = der.data();
    EVP_PKEY* k = d2i_AutoPrivateKey(nullptr, &p, (long) der.size());
    ERR_clear_error();
    if (!k)
        return false;
    for (auto n : {"d", "rsa-factor1", "rsa-factor2", "rsa-exponent1", "rsa-exponent2", "rsa-coefficient1", "priv"}) {
        BIGNUM* b = nullptr;
        Bytes raw(600);
        size_t len = 0;
        if (EVP_PKEY_get_bn_param(k, n, &b) == 1) {
            raw.resize((size_t) BN_num_bytes(b));
            BN_bn2bin(b, raw.data());
            secret(raw, "a private key");
            std::reverse(raw.begin(), raw.end());
            secret(raw, "a private key");
            BN_clear_free(b);
        } else if (!strcmp(n, "priv") && EVP_PKEY_get_octet_string_param(k, n, raw.data(), raw.size(), &len) == 1) {
            raw.resize(len);
            secret(raw, "a private key");
        }
    }
    ERR_clear_error();
    EVP_PKEY_free(k);
    return true;
}
sa_status imp_sym(Sess& s, sa_key* k, const void* p, size_t n, const sa_rights* r) {
    if (w_scan_on && p && n)
        w_secret_add(p, n, "a symmetric key");
    sa_import_parameters_symmetric pa = {r};
    return SA(s, key_import, k, SA_KEY_FORMAT_SYMMETRIC_BYTES, p, n, &pa);
}
sa_status imp_ec(Sess& s, sa_key* k, sa_elliptic_curve c, const Bytes& b, const sa_rights* r) {
    secret_private(b);
    sa_import_parameters_ec_private_bytes pa = {r, c};
    return SA(s, key_import, k, SA_KEY_FORMAT_EC_PRIVATE_BYTES, b.data(), b.size(), &pa);
}
sa_status imp_rsa(Sess& s, sa_key* k, const Bytes& b, const sa_rights* r) {
    secret_private(b);
    sa_import_parameters_rsa_private_key_info pa = {r};
    return SA(s, key_import, k, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, b.data(), b.size(), &pa);
}
static sa_key must(const char* what, sa_status st, sa_key k) {
    if (st != SA_STATUS_OK)
        viol(strf("valid-import-refused:%s", what), "import of a valid %s key gave %s", what, status_name(st));
    return k;
}
sa_key must_sym(Sess& s, const Bytes& b, const sa_rights* r) {
    sa_rights all = rights_all();
    sa_key k = INVALID_HANDLE;
    sa_status st = imp_sym(s, &k, b.data(), b.size(), r ? r : &all);
    return must("symmetric", st, k);
}
sa_key must_ec(Sess& s, const EKey& e, const sa_rights* r) {
    sa_rights all = rights_all();
    sa_key k = INVALID_HANDLE;
    sa_status st = imp_ec(s, &k, e.curve, e.priv, r ? r : &all);
    return must(strf("EC %s", curve_name(e.curve)).c_str(), st, k);
}
sa_key must_rsa(Sess& s, const EKey& e, const sa_rights* r) {
    sa_rights all = rights_all();
    sa_key k = INVALID_HANDLE;
    sa_status st = imp_rsa(s, &k, e.priv, r ? r : &all);
    return must("RSA", st, k);
}
sa_status key_export(Sess& s, sa_key k, const Bytes* mixin, Bytes* out) {
    size_t n = 0;
    const void* m = mixin ? mixin->data() : nullptr;
    size_t mn = mixin ? mixin->size() : 0;
    sa_status st = SA(s, key_export, nullptr, &n, m, mn, k);
    if (st != SA_STATUS_OK)
        return st;
    GBuf b(n);
    size_t n2 = n;
    st = SA(s, key_export, b.p, &n2, m, mn, k);
    if (st == SA_STATUS_OK)
        *out = b.get(0, n2);
    return st;
}
sa_status key_pub(Sess& s, sa_key k, Bytes* out) {
    size_t n = 0;
    sa_status st = SA(s, key_get_public, nullptr, &n, k);
    if (st != SA_STATUS_OK)
        return st;
    GBuf b(n);
    size_t n2 = n;
    st = SA(s, key_get_public, b.p, &n2, k);
    if (st == SA_STATUS_OK)
        *out = b.get(0, n2);
    return st;
}
sa_status key_digest(Sess& s, sa_key k, sa_digest_algorithm a, Bytes* out) {
    size_t n = digest_len(a);
    GBuf b(n);
    sa_status st = SA(s, key_digest, b.p, &n, k, a);
    if (st == SA_STATUS_OK)
        *out = b.get(0, n);
    return st;
}
sa_status hmac_of(Sess& s, sa_key k, sa_digest_algorithm a, const Bytes& in, Bytes* out) {
    sa_mac_parameters_hmac pa = {a};
    sa_crypto_mac_context c;
    sa_status st = SA(s, crypto_mac_init, &c, SA_MAC_ALGORITHM_HMAC, k, &pa);
    if (st != SA_STATUS_OK)
        return st;
    st = SA(s, crypto_mac_process, c, in.data(), in.size());
    if (st == SA_STATUS_OK) {
        size_t n = digest_len(a);
        GBuf b(n);
        st = SA(s, crypto_mac_compute, b.p, &n, c);
        if (st == SA_STATUS_OK)
            *out = b.get(0, n);
    }
    SA(s, crypto_mac_release, c);
    return st;
}
sa_status sign(Sess& s, sa_key k, sa_signature_algorithm alg, const Bytes& in, const void* params, Bytes* out) {
    size_t n = 0;
    sa_status st = SA(s, crypto_sign, nullptr, &n, alg, k, in.data(), in.size(), params);
    if (st != SA_STATUS_OK)
        return st;
    GBuf b(n);
    size_t n2 = n;
    st = SA(s, crypto_sign, b.p, &n2, alg, k, in.data(), in.size(), params);
    if (st == SA_STATUS_OK) {
        if (n2 > n)
            viol("sign-length", "signature length %zu exceeds the reported %zu", n2, n);
        *out = b.get(0, n2);
    }
    return st;
}
Bytes cipher_all(Sess& s, sa_crypto_cipher_context c, const Bytes& in, sa_status* st) {
    GBuf i(in), o(in.size() + 16);
    sa_buffer ib = clear_buf(i.p, i.n), ob = clear_buf(o.p, o.n);
    size_t n = in.size();
    *st = SA(s, crypto_cipher_process, &ob, c, &ib, &n);
    return *st == SA_STATUS_OK ? o.get(0, ob.context.clear.offset) : Bytes();
}
bool sym_matches(Sess& s, sa_key k, const Bytes& expect, std::string* why) {
    secret(expect, "a symmetric key");
    sa_header h;
    memset(&h, 0, sizeof h);
    sa_status st = SA(s, key_header, &h, k);
    if (st != SA_STATUS_OK) {
        *why = strf("header: %s", status_name(st));
        return false;
    }
    if (h.size != expect.size() || h.type != SA_KEY_TYPE_SYMMETRIC) {
        *why = strf("header says type %u size %u, expected symmetric of %zu bytes", h.type, h.size, expect.size());
        return false;
    }
    Bytes d;
    st = key_digest(s, k, SA_DIGEST_ALGORITHM_SHA256, &d);
    if (st != SA_STATUS_OK || d != ref_digest(SA_DIGEST_ALGORITHM_SHA256, expect)) {
        *why = strf("digest of the key %s, status %s; expected key %s", hex(d).c_str(), status_name(st), hex(expect).c_str());
        return false;
    }
    if (h.rights.usage_flags & SA_USAGE_BIT_MASK(SA_USAGE_FLAG_SIGN)) {
        Bytes m, data = {1, 2, 3, 4, 5};
        st = hmac_of(s, k, SA_DIGEST_ALGORITHM_SHA256, data, &m);
        if (st != SA_STATUS_OK || m != ref_hmac(SA_DIGEST_ALGORITHM_SHA256, expect, data)) {
            *why = strf("HMAC with the key differs from the reference (%s)", status_name(st));
            return false;
        }
    }
    return true;
}

// ---------------------------------------------------------------- reference cryptography
const sa_digest_algorithm DIGESTS[4] = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA384,
        SA_DIGEST_ALGORITHM_SHA512};
const EVP_MD* ref_md(sa_digest_algorithm d) {
    return d == SA_DIGEST_ALGORITHM_SHA1     ? EVP_sha1()
           : d == SA_DIGEST_ALGORITHM_SHA256 ? EVP_sha256()
           : d == SA_DIGEST_ALGORITHM_SHA384 ? EVP_sha384()
                                             : EVP_sha512();
}
size_t digest_len(sa_digest_algorithm d) { return (size_t) EVP_MD_size(ref_md(d)); }
Bytes ref_digest(sa_digest_algorithm d, const Bytes& in) {
    Bytes o(EVP_MAX_MD_SIZE);
    unsigned n = 0;
    HCHECK(EVP_Digest(in.data(), in.size(), o.data(), &n, ref_md(d), nullptr));
    o.resize(n);
    return o;
}
static Bytes ref_mac(const char* mac, const OSSL_PARAM* ps, const Bytes& key, const Bytes& in) {
    EVP_MAC* m = EVP_MAC_fetch(nullptr, mac, nullptr);
    EVP_MAC_CTX* c = EVP_MAC_CTX_new(m);
    static const uint8_t none = 0;
    HCHECK(EVP_MAC_init(c, key.empty() ? &none : key.data(), key.size(), ps));
    HCHECK(EVP_MAC_update(c, in.data(), in.size()));
    Bytes o(64);
    size_t n = 0;
    HCHECK(EVP_MAC_final(c, o.data(), &n, o.size()));
    o.resize(n);
    EVP_MAC_CTX_free(c);
    EVP_MAC_free(m);
    return o;
}
Bytes ref_hmac(sa_digest_algorithm d, const Bytes& key, const Bytes& in) {
    OSSL_PARAM ps[] = {OSSL_PARAM_construct_utf8_string("digest", (char*) EVP_MD_get0_name(ref_md(d)), 0),
            OSSL_PARAM_construct_end()};
    return ref_mac("HMAC", ps, key, in);
}
Bytes ref_cmac(const Bytes& key, const Bytes& in) {
    OSSL_PARAM ps[] = {OSSL_PARAM_construct_utf8_string("cipher", (char*) (key.size() == 16 ? "AES-128-CBC" : "AES-256-CBC"), 0),
            OSSL_PARAM_construct_end()};
    return ref_mac("CMAC", ps, key, in);
}
static Bytes evp(const EVP_CIPHER* ci, const Bytes& key, const uint8_t* iv, const Bytes& in, bool enc) {
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    HCHECK(EVP_CipherInit_ex(c, ci, nullptr, key.data(), iv, enc));
    EVP_CIPHER_CTX_set_padding(c, 0);
    Bytes o(in.size() + 32);
    int n = 0, m = 0;
    HCHECK(EVP_CipherUpdate(c, o.data(), &n, in.data(), (int) in.size()));
    HCHECK(EVP_CipherFinal_ex(c, o.data() + n, &m));
    EVP_CIPHER_CTX_free(c);
    o.resize(n + m);
    return o;
}
Bytes ref_ecb(const Bytes& k, const Bytes& in, bool enc) {
    return evp(k.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), k, nullptr, in, enc);
}
Bytes ref_cbc(const Bytes& k, const Bytes& iv, const Bytes& in, bool enc) {
    return evp(k.size() == 16 ? EVP_aes_128_cbc() : EVP_aes_256_cbc(), k, iv.data(), in, enc);
}
Bytes ref_ctr(const Bytes& k, const Bytes& ctr, const Bytes& in) {
    return evp(k.size() == 16 ? EVP_aes_128_ctr() : EVP_aes_256_ctr(), k, ctr.data(), in, true);
}
Bytes ref_ctr64(const Bytes& k, Bytes ctr, const Bytes& in) {
    Bytes o(in.size());
    for (size_t i = 0; i < in.size(); i += 16) {
        Bytes ks = ref_ecb(k, ctr, true);
        for (size_t j = 0; j < 16 && i + j < in.size(); j++)
            o[i + j] = in[i + j] ^ ks[j];
        for (int j = 15; j >= 8 && ++ctr[j] == 0; j--)
            ;
    }
    return o;
}
Bytes ref_chacha(const Bytes& k, const Bytes& counter, const Bytes& nonce, const Bytes& in) {
    return evp(EVP_chacha20(), k, cat({counter, nonce}).data(), in, true);
}
static Bytes aead(const EVP_CIPHER* ci, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes* tag) {
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    HCHECK(EVP_EncryptInit_ex(c, ci, nullptr, nullptr, nullptr));
    HCHECK(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, (int) iv.size(), nullptr));
    HCHECK(EVP_EncryptInit_ex(c, nullptr, nullptr, key.data(), iv.data()));
    Bytes o(in.size() + 32);
    int n = 0, m = 0;
    if (!aad.empty())
        HCHECK(EVP_EncryptUpdate(c, nullptr, &n, aad.data(), (int) aad.size()));
    n = 0;
    if (!in.empty())
        HCHECK(EVP_EncryptUpdate(c, o.data(), &n, in.data(), (int) in.size()));
    HCHECK(EVP_EncryptFinal_ex(c, o.data() + n, &m));
    o.resize(n + m);
    tag->resize(16);
    HCHECK(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, tag->data()));
    EVP_CIPHER_CTX_free(c);
    return o;
}
Bytes ref_gcm_enc(const Bytes& k, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes* tag) {
    return aead(k.size() == 16 ? EVP_aes_128_gcm() : EVP_aes_256_gcm(), k, iv, aad, in, tag);
}
Bytes ref_ccp_enc(const Bytes& k, const Bytes& nonce, const Bytes& aad, const Bytes& in, Bytes* tag) {
    return aead(EVP_chacha20_poly1305(), k, nonce, aad, in, tag);
}
Bytes pkcs7(Bytes in) {
    size_t n = 16 - in.size() % 16;
    in.insert(in.end(), n, (uint8_t) n);
    return in;
}
Bytes cat(std::initializer_list<Bytes> l) {
    Bytes o;
    for (auto& b : l)
        app(o, b);
    return o;
}
Bytes b64url(const Bytes& in) {
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    Bytes o;
    for (size_t i = 0; i < in.size(); i += 3) {
        uint32_t v = in[i] << 16;
        size_t m = std::min<size_t>(3, in.size() - i);
        if (m > 1)
            v |= in[i + 1] << 8;
        if (m > 2)
            v |= in[i + 2];
        for (size_t j = 0; j <= m; j++)
            o.push_back((uint8_t) t[(v >> (18 - 6 * j)) & 63]);
    }
    return o;
}
static Bytes unhex(const char* s) {
    Bytes b;
    for (; *s; s += 2)
        b.push_back((uint8_t) strtol(std::string(s, 2).c_str(), nullptr, 16));
    return b;
}
// the keys stored in data/root_keystore.p12
const Bytes& root_key() {
    static const Bytes k = unhex("e79b0318851b9dbdd71718f9ec72f03d");
    return k;
}
const Bytes& common_root_key() {
    static const Bytes k = unhex("68d5da983dddba8e2423ee2efdcd687a");
    return k;
}
Bytes ref_ladder(const Bytes& root, const Bytes& c1, const Bytes& c2, const Bytes& c3, const Bytes* c4) {
    secret(root, "a root key");
    Bytes k = ref_ecb(root, c1, false);
    secret(k, "a ladder key");
    k = ref_ecb(k, c2, false);
    secret(k, "a ladder key");
    k = ref_ecb(k, c3, false);
    secret(k, "a ladder key");
    if (c4)
        k = ref_ecb(k, *c4, false);
    secret(k, "a ladder key");
    return k;
}

// ---------------------------------------------------------------- generic cipher use
const char* alg_name(sa_cipher_algorithm a) {
    static const char* n[] = {"AES_ECB", "AES_ECB_PKCS7", "AES_CBC", "AES_CBC_PKCS7", "AES_CTR", "AES_GCM", "RSA_PKCS1V15",
            "RSA_OAEP", "EC_ELGAMAL", "CHACHA20", "CHACHA20_POLY1305"};
    return (size_t) a < ARRAY_N(n) ? n[a] : "?";
}
void cparams_rand(CParams& p, Rng& r, sa_cipher_algorithm a) {
    switch (a) {
        case SA_CIPHER_ALGORITHM_AES_CBC:
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7:
            p.iv = r.bytes(16);
            p.cbc = {p.iv.data(), 16};
            p.ptr = &p.cbc;
            break;
        case SA_CIPHER_ALGORITHM_AES_CTR:
            p.ctr = r.bytes(16);
            if (r.chance(40))   // near a carry or a rollover of the counter
                for (size_t i = 16 - r.range(1, 16); i < 16; i++)
                    p.ctr[i] = i == 15 ? (uint8_t) (0xff - r.below(4)) : 0xff;
            p.ctrp = {p.ctr.data(), 16};
            p.ptr = &p.ctrp;
            break;
        case SA_CIPHER_ALGORITHM_AES_GCM:
            p.iv = r.bytes(12);
            p.aad = r.bytes(r.chance(25) ? 0 : r.len(200));
            p.gcm = {p.iv.data(), 12, p.aad.empty() ? nullptr : p.aad.data(), p.aad.size()};
            p.ptr = &p.gcm;
            break;
        case SA_CIPHER_ALGORITHM_CHACHA20:
            p.ctr = r.bytes(4);
            p.nonce = r.bytes(12);
            if (r.chance(50))   // small counters: OpenSSL treats the counter as 32 bits
                p.ctr = {(uint8_t) r.below(3), 0, 0, 0};
            p.cc = {p.ctr.data(), 4, p.nonce.data(), 12};
            p.ptr = &p.cc;
            break;
        case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
            p.nonce = r.bytes(12);
            p.aad = r.bytes(r.chance(25) ? 0 : r.len(200));
            p.ccp = {p.nonce.data(), 12, p.aad.empty() ? nullptr : p.aad.data(), p.aad.size()};
            p.ptr = &p.ccp;
            break;
        case SA_CIPHER_ALGORITHM_RSA_OAEP:
            p.label = r.bytes(r.coin() ? 0 : r.len(64));
            p.oaep = {DIGESTS[r.below(4)], DIGESTS[r.below(4)], p.label.empty() ? nullptr : p.label.data(), p.label.size()};
            p.ptr = &p.oaep;
            break;
        default: p.ptr = nullptr; break;
    }
}
sa_status cinit(Sess& s, sa_crypto_cipher_context* c, sa_cipher_algorithm a, sa_cipher_mode m, sa_key k, CParams& p) {
    *c = INVALID_HANDLE;
    return SA(s, crypto_cipher_init, c, a, m, k, p.ptr);
}
sa_buffer clear_buf(void* p, size_t len, size_t off) {
    sa_buffer b;
    memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_CLEAR;
    b.context.clear.buffer = p;
    b.context.clear.length = len;
    b.context.clear.offset = off;
    return b;
}
sa_buffer svp_buf(sa_svp_buffer h, size_t off) {
    sa_buffer b;
    memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_SVP;
    b.context.svp.buffer = h;
    b.context.svp.offset = off;
    return b;
}

// ---------------------------------------------------------------- driver
static void on_alarm(int) {
    const char m[] = "\nHANG: the case did not finish within the watchdog period\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
static void write_stats(const std::string& path) {
    if (path.empty())
        return;
    FILE* f = fopen(path.c_str(), "w");
    if (!f)
        return;
    g_cov["api-calls-accepted"] += g_calls_ok;
    g_cov["api-calls-refused"] += g_calls_refused;
    fprintf(f, "{\"cases\":%" PRIu64 ",\"violations\":%" PRIu64 ",\"cov\":{", g_cases, g_nviol);
    bool first = true;
    for (auto& kv : g_cov) {
        fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(kv.first).c_str(), kv.second);
        first = false;
    }
    fprintf(f, "},\"rule\":%s,\"samples\":[", jstr(harness().rule).c_str());
    for (size_t i = 0; i < g_samples.size(); i++)
        fprintf(f, "%s%s", i ? "," : "", jstr(g_samples[i]).c_str());
    fprintf(f, "],\"distinct\":[");
    first = true;
    for (auto h : g_distinct) {
        fprintf(f, "%s\"%" PRIx64 "\"", first ? "" : ",", h);
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
}
int main(int argc, char** argv) {
    uint64_t seed = 1, start = 0, end = 0;
    std::string out, violf, statusf;
    unsigned watchdog = 90;
    bool one = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--end") end = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") out = val();
        else if (a == "--viol") violf = val();
        else if (a == "--status") statusf = val();
        else if (a == "--data") g_data = val();
        else if (a == "--watchdog") watchdog = (unsigned) atoi(val().c_str());
        else if (a == "--thorough") g_thorough = true;
        else if (a == "-v") g_verbose = true;
        else if (a == "--case") { start = strtoull(val().c_str(), nullptr, 10); end = start + 1; one = true; }
    }
    if (g_data.empty())
        g_data = "data";
    setenv("ROOT_KEYSTORE", (g_data + "/root_keystore.p12").c_str(), 1);
    unsetenv("ROOT_KEYSTORE_PASSWORD");
    log_set_level(getenv("VERIF_LOG") ? LOG_LEVEL_TRACE : LOG_LEVEL_FATAL + 1);
    if (!statusf.empty()) {
        int fd = open(statusf.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0)
            g_status = (Status*) mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    if (!violf.empty())
        g_viol = fopen(violf.c_str(), "a");
    signal(SIGALRM, on_alarm);
    w_reset();
    Harness h = harness();
    try {
        alarm(watchdog * 2);
        if (h.init)
            h.init();
        alarm(0);
    } catch (CaseAbort&) {   // what the set-up found is a violation like any other; there is nothing left to run
        write_stats(out);
        fflush(nullptr);
        _exit(1);
    }
    for (uint64_t i = start; i < end; i++) {
        g_index = i;
        g_case_seed = mix64(seed, i);
        if (g_status) {
            g_status->index = i;
            g_status->seed = g_case_seed;
        }
        {
            std::lock_guard<std::mutex> g(g_mu);
            g_trace.clear();
            g_async_sig.clear();
        }
        alarm(watchdog);
        w_reset();
        if (g_verbose)
            fprintf(stderr, "case %" PRIu64 "\n", i);
        g_call_at = 0;
        g_log_calls = i < start + 2;
        Rng r(g_case_seed);
        try {
            h.one(r, i);
        } catch (CaseAbort&) {
        }
        alarm(0);
        if (g_log_calls) {
            g_log_calls = false;
            std::string t;
            for (size_t j = 0; j < g_trace.size() && j < 4; j++)
                t += "; " + g_trace[j];
            if (g_call_at || !t.empty())
                g_samples.push_back((strf("case seed %" PRIu64 ", calls:", g_case_seed) + std::string(g_call_log, g_call_at) + t).substr(0, 900));
        }
        g_cases++;
        if (!g_async_sig.empty())
            report(g_async_sig, g_async_text);
        w_reset();
    }
    if (h.finish) {
        alarm(watchdog * 2);
        try {
            h.finish();
        } catch (CaseAbort&) {
        }
        alarm(0);
    }
    write_stats(out);
    if (g_status)
        g_status->done = 1;
    if (one)
        fprintf(stderr, "case done, %" PRIu64 " violation(s)\n", g_nviol);
    fflush(nullptr);
    _exit(g_nviol ? 1 : 0);
}
