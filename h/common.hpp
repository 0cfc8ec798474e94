// Shared machinery of the monitor programs: random source, guarded buffers, sessions, verdicts, coverage.
#pragma once
#include <openssl/bn.h>
#include <openssl/core_names.h>
#include <openssl/crypto.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>
#include <openssl/param_build.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>

#include <array>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

extern "C" {
#include "log.h"
}
#include "sa.h"
#include "sa_cenc.h"
#include "sa_ta_types.h"
#include "ta_sa.h"

#include "porting/video_output.h"

extern "C" {   // ta.h and porting/svp.h do not compile as C++
sa_status ta_open_session_handler(void** session_context);
void ta_close_session_handler(void* session_context);
sa_status ta_invoke_command_handler(void* session_context, SA_COMMAND_ID command_id, const uint32_t param_types[4],
        ta_param params[4]);
typedef struct svp_buffer_s svp_buffer_t;
}
typedef std::vector<uint8_t> Bytes;
#define ARRAY_N(a) (sizeof(a) / sizeof((a)[0]))

// ---------------------------------------------------------------- random source (every choice of a case)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned percent) { return below(100) < percent; }
    bool coin() { return next() & 1; }
    void fill(void* p, size_t n) {
        auto* b = (uint8_t*) p;
        for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (next() >> 24);
    }
    Bytes bytes(size_t n) {
        Bytes b(n);
        fill(b.data(), n);
        return b;
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    // lengths that matter: around block boundaries, small, sometimes large
    size_t len(size_t max);
};
uint64_t mix64(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
std::string hex(const void* p, size_t n, size_t max = 64);
inline std::string hex(const Bytes& b, size_t max = 64) { return hex(b.data(), b.size(), max); }
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- verdicts
struct CaseAbort {};
// Ends the case as a violation. sig: stable identity of the failure (call site / kind), text: witness.
[[noreturn]] void viol(const std::string& sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// For destructors: what f reports is already recorded
template <class F> void quietly(F f) noexcept {
    try {
        f();
    } catch (CaseAbort&) {
    }
}
struct Finally {
    std::function<void()> f;
    ~Finally() { quietly(f); }
};
// Records a violation seen from inside a callback; reported when the case ends.
void viol_async(const std::string& sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define HCHECK(c) do { if (!(c)) harness_error("%s:%d %s", __FILE__, __LINE__, #c); } while (0)
extern bool g_muted;   // what the case reports is of no interest: it ends quietly (its environment was tampered with)
void cov(const std::string& key, uint64_t n = 1);
void nontrivial(uint64_t h);   // counts a distinct non-trivial case by hash
void sample(const std::string& s);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // the case's op log, part of a witness
extern bool g_thorough, g_verbose;
extern uint64_t g_case_seed;
const char* status_name(int s);

// ---------------------------------------------------------------- guarded buffers
// Exactly n accessible bytes between poisoned, pattern-filled guards.
struct GBuf {
    uint8_t* base = nullptr;
    uint8_t* p = nullptr;
    size_t n = 0;
    explicit GBuf(size_t n, int fillbyte = 0xA5);
    explicit GBuf(const Bytes& b);
    GBuf(const GBuf&) = delete;
    GBuf& operator=(const GBuf&) = delete;
    ~GBuf();
    bool guards_ok() const;
    Bytes get(size_t off, size_t len) const { return Bytes(p + off, p + off + len); }
    Bytes get() const { return Bytes(p, p + n); }
};
// While set, the memory of a destroyed GBuf stays allocated (handles of the TA may still refer to it)
extern bool g_hold_buffers;
void release_held_buffers();

// ---------------------------------------------------------------- sessions
extern const sa_uuid UUID_REE, UUID_ALL, UUID_NONE;
sa_uuid mk_uuid(uint8_t tag);
bool operator==(const sa_uuid& a, const sa_uuid& b);
inline bool operator!=(const sa_uuid& a, const sa_uuid& b) { return !(a == b); }

struct Sess {
    bool direct;          // true: TA API on a session of its own; false: the client library (process-wide session)
    ta_client slot = 0;
    sa_uuid uuid;
    bool open = false;
    explicit Sess(bool direct = true, sa_uuid u = UUID_REE);
    Sess(const Sess&) = delete;
    ~Sess();
    void close();
};
struct SessView { bool direct; ta_client slot; sa_uuid uuid; };
// Allocation faults during one call: every call made in scope is counted; allocation number `at` of call number `call` fails
struct FaultPlan {
    bool ossl = false;        // which allocations: the TA's own, or OpenSSL's on its behalf
    int64_t call = -1, at = 0;
    bool persist = false;     // and all later ones of that call
    int64_t calls = 0;
    std::vector<std::pair<std::string, int64_t>> seen;   // calls in scope and the allocations they made
    bool fired = false;
    bool refused = false;     // the call it hit failed
    std::string fn;
    sa_status st = SA_STATUS_OK;
};
extern thread_local FaultPlan* g_fp;
extern thread_local int g_fault_scope;
struct FaultScope {
    FaultScope() { g_fault_scope++; }
    ~FaultScope() { g_fault_scope--; }
};
void before_call(bool direct, const sa_uuid& u);
sa_status after_call(const char* fn, sa_status st);
extern thread_local const sa_uuid* g_as;   // when set, calls are made under this caller identity instead of the session's
inline const sa_uuid& as_caller(const sa_uuid& u) { return g_as ? *g_as : u; }
// SA(s, crypto_sign, args...) calls ta_sa_crypto_sign(args..., slot, &uuid) or sa_crypto_sign(args...)
#define SA(S, FN, ...) \
    (before_call((S).direct, as_caller((S).uuid)), \
            after_call(#FN, (S).direct ? ta_sa_##FN(__VA_ARGS__, (S).slot, &as_caller((S).uuid)) : sa_##FN(__VA_ARGS__)))

// ---------------------------------------------------------------- simulated platform (wraps.cpp)
extern std::atomic<bool> w_time_on;
extern std::atomic<int64_t> w_time;
extern std::atomic<bool> w_video_on;
extern video_output_state_t w_video;       // set while no other thread runs
extern std::atomic<bool> w_video_fail;
extern std::atomic<bool> w_regions_on;     // SVP region model: memory_is_valid_svp only inside, _clear only outside
void w_region_add(const void* p, size_t n);
void w_region_del(const void* p);
bool w_region_inside(const void* p, size_t n);
extern std::atomic<int> w_svp_release_fail;
extern thread_local sa_uuid w_caller;
extern thread_local bool w_caller_on;
extern thread_local int w_locks_held;
extern std::atomic<bool> w_delay_on;
extern std::atomic<uint64_t> w_lock_events, w_lock_contended;
void w_delay_seed(uint64_t seed);
// allocation faults: fail allocation number w_fail_at (1-based; <=0 never); persistent: and all later ones
extern std::atomic<int64_t> w_alloc_count, w_fail_at;
extern std::atomic<bool> w_fail_persist, w_alloc_watch, w_fail_ossl;
extern std::atomic<uint64_t> w_faults_fired;
struct ThreadNotes {
    std::map<std::string, uint64_t> cov;
    std::vector<uint64_t> distinct;
    void merge();
};
extern thread_local ThreadNotes* t_notes;
// secrets: byte strings that must not be in a block when it is given back
void w_secret_clear();
void w_secret_add(const void* p, size_t n, const char* name);
extern std::atomic<bool> w_scan_on;
void w_secret_scan(const char* what);   // looks for what is known so far in all blocks given back so far, and forgets the blocks
inline void secret(const std::vector<uint8_t>& b, const char* name) {
    if (w_scan_on)
        w_secret_add(b.data(), b.size(), name);
}
extern std::atomic<uint64_t> w_frees_scanned, w_bytes_scanned;
extern std::atomic<bool> w_otp_on;         // record the ladder inputs of keys that protect stored keys ('W' wrapping, 'I' integrity)
extern std::vector<std::pair<char, std::array<uint8_t, 48>>> w_otp_log;
extern std::vector<std::vector<uint8_t>> w_otp_material;   // and the padded material the 'W' keys were given
extern std::atomic<int> w_rand_result;                     // what RAND_bytes answers the TA, doing nothing when it is not 1
// called at points inside an operation (allocation, lock, comparison) of a thread that set w_poke_on
extern "C" void (*w_poke)();
extern "C" thread_local bool w_poke_on;
// receives the commands the client library sends the TA
extern "C" sa_status (*w_invoke)(void*, SA_COMMAND_ID, const uint32_t*, ta_param*);
extern "C" sa_status __real_ta_invoke_command_handler(void* c, SA_COMMAND_ID id, const uint32_t* t, ta_param* p);
void w_reset();
extern "C" void ta_live_dump();   // with VERIF_ALLOCMAP set: where they were allocated
// every block (OpenSSL's included) allocated during a call on the library while w_call_track was on, and not yet freed
extern std::atomic<bool> w_call_track;
extern thread_local bool w_in_call;
int64_t call_live_blocks();
uint64_t client_live_blocks();   // the client library's own
uint64_t ta_live_blocks();   // blocks the TA's allocator wrappers handed out and have not had back
size_t heap_bytes();         // bytes allocated in the process according to the sanitizer runtime

// ---------------------------------------------------------------- rights and keys
sa_rights rights_all();                       // every usage flag, no limits, any TA
sa_rights rights_rand(Rng& r, bool usable);   // usable: satisfied by the default platform state
bool rights_equal(const sa_rights& a, const sa_rights& b);
std::string rights_str(const sa_rights& r);

struct EKey {   // a key pair made by plain OpenSSL
    EVP_PKEY* pkey = nullptr;
    Bytes priv;   // PKCS#8 DER, what sa_key_import takes
    Bytes raw;    // EC: the private value
    sa_elliptic_curve curve{};
    size_t bits = 0;
};
const char* curve_name(sa_elliptic_curve c);   // OpenSSL group or algorithm name
bool curve_is_nist(sa_elliptic_curve c);
size_t curve_size(sa_elliptic_curve c);        // key size in bytes
const std::vector<sa_elliptic_curve>& curves_all();
EKey ec_generate(Rng& r, sa_elliptic_curve c);
EVP_PKEY* ec_from_priv(sa_elliptic_curve c, const Bytes& priv);
const EKey& rsa_pool(size_t bytes, size_t idx);   // committed keys; bytes in {128,256,384,512}
size_t rsa_pool_count(size_t bytes);
Bytes pub_der(EVP_PKEY* k);
Bytes p8_der(EVP_PKEY* k);

sa_status imp_sym(Sess& s, sa_key* k, const void* p, size_t n, const sa_rights* r);
sa_status imp_ec(Sess& s, sa_key* k, sa_elliptic_curve c, const Bytes& b, const sa_rights* r);
sa_status imp_rsa(Sess& s, sa_key* k, const Bytes& b, const sa_rights* r);
sa_key must_sym(Sess& s, const Bytes& b, const sa_rights* r = nullptr);
sa_key must_ec(Sess& s, const EKey& e, const sa_rights* r = nullptr);
sa_key must_rsa(Sess& s, const EKey& e, const sa_rights* r = nullptr);
sa_status key_export(Sess& s, sa_key k, const Bytes* mixin, Bytes* out);
sa_status key_pub(Sess& s, sa_key k, Bytes* out);
sa_status key_digest(Sess& s, sa_key k, sa_digest_algorithm a, Bytes* out);
sa_status hmac_of(Sess& s, sa_key k, sa_digest_algorithm a, const Bytes& in, Bytes* out);
sa_status sign(Sess& s, sa_key k, sa_signature_algorithm alg, const Bytes& in, const void* params, Bytes* out);
Bytes cipher_all(Sess& s, sa_crypto_cipher_context c, const Bytes& in, sa_status* st);   // one clear process call
bool secret_private(const Bytes& pkcs8);   // registers the private numbers of a key, while w_scan_on
bool sym_matches(Sess& s, sa_key k, const Bytes& expect, std::string* why);   // material, by header, digest and HMAC

// ---------------------------------------------------------------- reference cryptography (plain OpenSSL)
const EVP_MD* ref_md(sa_digest_algorithm d);
size_t digest_len(sa_digest_algorithm d);
extern const sa_digest_algorithm DIGESTS[4];
Bytes ref_digest(sa_digest_algorithm d, const Bytes& in);
Bytes ref_hmac(sa_digest_algorithm d, const Bytes& key, const Bytes& in);
Bytes ref_cmac(const Bytes& key, const Bytes& in);
Bytes ref_ecb(const Bytes& key, const Bytes& in, bool enc);
Bytes ref_cbc(const Bytes& key, const Bytes& iv, const Bytes& in, bool enc);
Bytes ref_ctr(const Bytes& key, const Bytes& ctr, const Bytes& in);
Bytes ref_ctr64(const Bytes& key, Bytes ctr, const Bytes& in);   // 64-bit block counter, as common encryption defines
Bytes ref_chacha(const Bytes& key, const Bytes& counter, const Bytes& nonce, const Bytes& in);
Bytes ref_gcm_enc(const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes* tag16);
Bytes ref_ccp_enc(const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& in, Bytes* tag16);
Bytes pkcs7(Bytes in);
Bytes cat(std::initializer_list<Bytes> l);
inline void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes b64url(const Bytes& in);
const Bytes& root_key();          // the device's root key in the test key store
const Bytes& common_root_key();
Bytes ref_ladder(const Bytes& root, const Bytes& c1, const Bytes& c2, const Bytes& c3, const Bytes* c4);

// ---------------------------------------------------------------- generic cipher use
struct CParams {   // storage of the parameters of a cipher context, of any algorithm
    Bytes iv, ctr, nonce, aad, label;
    sa_cipher_parameters_aes_cbc cbc{};
    sa_cipher_parameters_aes_ctr ctrp{};
    sa_cipher_parameters_aes_gcm gcm{};
    sa_cipher_parameters_chacha20 cc{};
    sa_cipher_parameters_chacha20_poly1305 ccp{};
    sa_cipher_parameters_rsa_oaep oaep{};
    void* ptr = nullptr;
};
void cparams_rand(CParams& p, Rng& r, sa_cipher_algorithm a);
const char* alg_name(sa_cipher_algorithm a);
sa_status cinit(Sess& s, sa_crypto_cipher_context* c, sa_cipher_algorithm a, sa_cipher_mode m, sa_key k, CParams& p);
sa_buffer clear_buf(void* p, size_t len, size_t off = 0);
sa_buffer svp_buf(sa_svp_buffer b, size_t off = 0);

struct Mem {   // a clear buffer or an SVP buffer of n bytes
    Sess& s;
    bool svp;
    GBuf g;
    sa_svp_buffer h = INVALID_HANDLE;
    Mem(Sess& s_, bool svp_, size_t n) : s(s_), svp(svp_), g(n) {
        if (svp) {
            sa_status st = SA(s, svp_buffer_create, &h, g.p, n);
            if (st != SA_STATUS_OK)
                viol("svp-create-refused", "creating an SVP buffer of %zu bytes gave %s", n, status_name(st));
        }
    }
    ~Mem() {
        if (svp) {
            void* m;
            size_t n;
            quietly([&] { SA(s, svp_buffer_release, &m, &n, h); });
        }
    }
    sa_buffer buf(size_t off) { return svp ? svp_buf(h, off) : clear_buf(g.p, g.n, off); }
};
inline size_t off_of(const sa_buffer& b) { return b.buffer_type == SA_BUFFER_TYPE_SVP ? b.context.svp.offset : b.context.clear.offset; }

// ---------------------------------------------------------------- what a harness provides
struct Harness {
    const char* rule;                        // how cases are made and what makes one non-trivial
    void (*init)();
    void (*one)(Rng& r, uint64_t index);
    void (*finish)();                        // after all cases of the worker (may be null)
    bool fault_alloc = false;
    std::function<void(Rng&, const uint8_t*, size_t)> raw;
};
Harness harness();
