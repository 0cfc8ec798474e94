// Linker-wrapped platform layer: virtual clock, video outputs, caller identity, SVP regions, allocator and mutexes.
// The wrapped functions are the ones docs call the SoC porting layer, plus libc time and threads.
#include "common.hpp"
#include <execinfo.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <threads.h>
#include <unistd.h>
#include <unordered_map>

std::atomic<bool> w_time_on{false};
std::atomic<int64_t> w_time{1700000000};
std::atomic<bool> w_video_on{false};
video_output_state_t w_video;
std::atomic<bool> w_video_fail{false};
std::atomic<bool> w_regions_on{false};
std::atomic<int> w_svp_release_fail{0};
thread_local sa_uuid w_caller;
thread_local bool w_caller_on = false;
thread_local int w_locks_held = 0;
std::atomic<bool> w_delay_on{false};
std::atomic<uint64_t> w_lock_events{0}, w_lock_contended{0};
std::atomic<int64_t> w_alloc_count{0}, w_fail_at{0};
std::atomic<bool> w_fail_persist{false}, w_alloc_watch{false}, w_fail_ossl{false};
std::atomic<uint64_t> w_faults_fired{0};
std::atomic<bool> w_scan_on{false};
std::atomic<uint64_t> w_frees_scanned{0}, w_bytes_scanned{0};
static std::atomic<int64_t> live_blocks{0};

extern "C" {
time_t __real_time(time_t* t);
int __real_clock_gettime(clockid_t c, struct timespec* ts);
int __real_gettimeofday(struct timeval* tv, void* tz);
bool __real_video_output_poll(video_output_state_t* state);
sa_status __real_transport_authenticate_caller(sa_uuid* uuid);
bool __real_memory_is_valid_svp(void* p, size_t n);
bool __real_memory_is_valid_clear(void* p, size_t n);
bool __real_svp_release_buffer(void** m, size_t* size, svp_buffer_t* b);
void* __real_memory_secure_alloc(size_t n);
void* __real_memory_secure_realloc(void* p, size_t n);
void __real_memory_secure_free(void* p);
void* __real_memory_internal_alloc(size_t n);
void* __real_memory_internal_realloc(void* p, size_t n);
void __real_memory_internal_free(void* p);
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_trylock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);

time_t __wrap_time(time_t* t) {
    if (!w_time_on)
        return __real_time(t);
    auto v = (time_t) w_time.load();
    if (t)
        *t = v;
    return v;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (w_time_on && c == CLOCK_REALTIME) {
        ts->tv_sec = (time_t) w_time.load();
        ts->tv_nsec = 0;
        return 0;
    }
    return __real_clock_gettime(c, ts);
}
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
    if (w_time_on && tv) {
        tv->tv_sec = (time_t) w_time.load();
        tv->tv_usec = 0;
        return 0;
    }
    return __real_gettimeofday(tv, tz);
}
bool __wrap_video_output_poll(video_output_state_t* state) {
    if (w_video_fail)
        return false;
    if (w_video_on && state) {
        *state = w_video;
        return true;
    }
    return __real_video_output_poll(state);
}
sa_status __wrap_transport_authenticate_caller(sa_uuid* uuid) {
    if (w_caller_on && uuid) {
        *uuid = w_caller;
        return SA_STATUS_OK;
    }
    return __real_transport_authenticate_caller(uuid);
}

// ---- SVP regions
static std::mutex region_mu;
static std::map<uintptr_t, size_t> regions;
}
void w_region_add(const void* p, size_t n) {
    std::lock_guard<std::mutex> g(region_mu);
    regions[(uintptr_t) p] = n;
}
void w_region_del(const void* p) {
    std::lock_guard<std::mutex> g(region_mu);
    regions.erase((uintptr_t) p);
}
bool w_region_inside(const void* p, size_t n) {
    std::lock_guard<std::mutex> g(region_mu);
    auto a = (uintptr_t) p;
    auto it = regions.upper_bound(a);
    if (it == regions.begin())
        return false;
    --it;
    return a - it->first <= it->second && n <= it->second - (a - it->first);
}
static bool region_overlaps(const void* p, size_t n) {
    std::lock_guard<std::mutex> g(region_mu);
    auto a = (uintptr_t) p;
    for (auto& r : regions)
        if (a < r.first + r.second && r.first < a + n)
            return true;
    return false;
}
extern "C" {
bool __wrap_memory_is_valid_svp(void* p, size_t n) {
    if (!__real_memory_is_valid_svp(p, n))
        return false;
    return !w_regions_on || w_region_inside(p, n);
}
bool __wrap_memory_is_valid_clear(void* p, size_t n) {
    if (!__real_memory_is_valid_clear(p, n))
        return false;
    return !w_regions_on || !region_overlaps(p, n);
}
bool __wrap_svp_release_buffer(void** m, size_t* size, svp_buffer_t* b) {
    if (w_svp_release_fail > 0) {
        w_svp_release_fail--;
        return false;
    }
    return __real_svp_release_buffer(m, size, b);
}

// ---- points inside an operation at which monitors may act (change shared memory)
void (*w_poke)() = nullptr;
thread_local bool w_poke_on = false;
static inline void poke() {
    if (w_poke_on && w_poke) {
        w_poke_on = false;   // not from within itself
        w_poke();
        w_poke_on = true;
    }
}
static void perturb();
// ---- commands arriving at the TA
sa_status (*w_invoke)(void*, SA_COMMAND_ID, const uint32_t*, ta_param*) = nullptr;
sa_status __real_ta_invoke_command_handler(void* c, SA_COMMAND_ID id, const uint32_t* t, ta_param* p);
sa_status __wrap_ta_invoke_command_handler(void* c, SA_COMMAND_ID id, const uint32_t* t, ta_param* p) {
    return w_invoke ? w_invoke(c, id, t, p) : __real_ta_invoke_command_handler(c, id, t, p);
}
int __real_memory_memcmp_constant(const void* a, const void* b, size_t n);
int __wrap_memory_memcmp_constant(const void* a, const void* b, size_t n) {
    int r = __real_memory_memcmp_constant(a, b, n);
    perturb();
    poke();
    return r;
}
static void keep_freed(const void* p, size_t n, const char* how);
void* __real_memory_memset_unoptimizable(void* p, uint8_t v, size_t n);
void* __wrap_memory_memset_unoptimizable(void* p, uint8_t v, size_t n) {
    keep_freed(p, n, nullptr);   // shows that erased memory did hold secrets
    void* q = __real_memory_memset_unoptimizable(p, v, n);
    perturb();
    poke();
    return q;
}

// ---- allocator
static void perturb();
static bool inject(bool ossl = false) {
    poke();
    if (!ossl)
        perturb();
    if (!w_alloc_watch || w_fail_ossl != ossl)
        return false;
    int64_t n = ++w_alloc_count, at = w_fail_at;
    if (at > 0 && (n == at || (w_fail_persist && n > at))) {
        w_faults_fired++;
        return true;
    }
    return false;
}
}
// Blocks given back while w_scan_on are kept and searched later, when all secrets of an activity are known.
struct Secret { Bytes b; std::string name; };
struct Freed { Bytes b; const char* how; void* bt[12]; int depth; };
static std::mutex secret_mu;
static std::vector<Secret> secrets;
static std::vector<Freed> freed;
static size_t freed_bytes;
static std::unordered_map<uint64_t, size_t> windows;   // of the first window_count secrets
static std::vector<bool> quick(1 << 16);
static size_t window_count;
void w_secret_clear() {
    std::lock_guard<std::mutex> g(secret_mu);
    secrets.clear();
    freed.clear();
    windows.clear();
    std::fill(quick.begin(), quick.end(), false);
    freed_bytes = window_count = 0;
}
void w_secret_add(const void* p, size_t n, const char* name) {
    if (n < 8)
        return;
    std::lock_guard<std::mutex> g(secret_mu);
    secrets.push_back({Bytes((const uint8_t*) p, (const uint8_t*) p + n), name});
}
__attribute__((no_sanitize("address", "thread", "memory"))) static void raw_copy(uint8_t* to, const uint8_t* from, size_t n) {
    for (size_t i = 0; i < n; i++)
        to[i] = from[i];
}
// how: the function that gives the block back, or null if the block is being erased
__attribute__((no_sanitize("address", "thread"))) static void keep_freed(const void* p, size_t n, const char* how) {
    if (!w_scan_on || !p || !w_in_call)
        return;
    Freed f;
    f.how = how;
    f.depth = backtrace(f.bt, 12);
    f.b.resize(n);
    raw_copy(f.b.data(), (const uint8_t*) p, n);
    if (how) {
        w_frees_scanned++;
        w_bytes_scanned += n;
    }
    std::lock_guard<std::mutex> g(secret_mu);
    if (freed_bytes < (256u << 20)) {
        freed_bytes += n;
        freed.push_back(std::move(f));
    }
}
static void scan(void* p, const char* how) {
    if (w_scan_on && p)
        keep_freed(p, malloc_usable_size(p), how);
}
extern "C" __attribute__((weak)) void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n);
static std::string freed_by(const Freed& f, bool all) {
    static std::unordered_map<void*, std::string> known;
    std::string r;
    for (int i = 0; i < f.depth && __sanitizer_symbolize_pc; i++) {
        std::string& t = known[f.bt[i]];
        if (t.empty()) {
            char b[300] = "";
            __sanitizer_symbolize_pc((char*) f.bt[i] - 1, "%f %s:%l", b, sizeof b);
            t = b;
        }
        if (t.find("reference/src") == std::string::npos || t.find("/memory.c") != std::string::npos)
            continue;
        if (!all)
            return t.substr(0, t.find(' '));
        size_t sl = t.rfind('/');
        r += (r.empty() ? "" : " < ") + t.substr(0, t.find(' ')) + " " + (sl == std::string::npos ? "" : t.substr(sl + 1));
    }
    return r.empty() ? "?" : r;
}
void w_secret_scan(const char* what) {
    std::vector<Freed> ff;
    std::lock_guard<std::mutex> g(secret_mu);
    ff.swap(freed);
    freed_bytes = 0;
    auto word = [](const uint8_t* p) { uint64_t x; memcpy(&x, p, 8); return x; };
    for (; window_count < secrets.size(); window_count++)
        for (size_t o = 0; o + 8 <= secrets[window_count].b.size(); o++) {
            const uint8_t* p = secrets[window_count].b.data() + o;
            unsigned distinct = 0;
            for (int a = 0; a < 8; a++)
                distinct += !memchr(p + a + 1, p[a], (size_t) (7 - a));
            if (distinct < 6)
                continue;   // padding, zeros: could be anything
            windows.emplace(word(p), window_count);
            quick[(size_t) (p[0] | p[1] << 8)] = true;
        }
    for (auto& f : ff)
        for (size_t o = 0; o + 8 <= f.b.size(); o++) {
            const uint8_t* p = f.b.data() + o;
            if (!quick[(size_t) (p[0] | p[1] << 8)])
                continue;
            auto it = windows.find(word(p));
            if (it == windows.end())
                continue;
            const Secret& s = secrets[it->second];
            if (!f.how) {
                cov(strf("erased:%s:%s", s.name.c_str(), freed_by(f, false).c_str()));
                nontrivial(hash_bytes(f.bt, sizeof(void*) * (size_t) std::min(f.depth, 5), hash_bytes(s.name.data(), s.name.size())));
                break;
            }
            viol_async(strf("secret-in-freed-memory:%s:%s", s.name.c_str(), freed_by(f, false).c_str()),
                    "%s: %s gave back a block of %zu bytes with %s at offset %zu (%s); from %s", what, f.how, f.b.size(), s.name.c_str(), o,
                    hex(Bytes(p, p + 8)).c_str(), freed_by(f, true).c_str());
            return;
        }
}
// The blocks the TA's allocator functions handed out, with their origin on request. A block may be given back through
// another path (OpenSSL frees an OAEP label it was handed), so every free in the process is looked at.
static const bool map_on = getenv("VERIF_ALLOCMAP") != nullptr;
static const size_t SHARDS = 4096;
struct Shard {
    std::atomic_flag lock = ATOMIC_FLAG_INIT;
    std::atomic<uint32_t> n{0};
    struct E { void* p; void* bt[14]; } *e = nullptr;
    uint32_t cap = 0;
};
static Shard shards[SHARDS], call_shards[SHARDS];
static std::atomic<int64_t> call_blocks{0};
std::atomic<bool> w_call_track{false};
thread_local bool w_in_call = false;
static size_t shard_of(const void* p) { return ((uintptr_t) p >> 4) * 0x9E3779B1u >> 8 & (SHARDS - 1); }
__attribute__((no_sanitize("address", "thread"))) static void put(Shard& s, void* p, std::atomic<int64_t>& count) {
    void* bt[14] = {nullptr};
    if (map_on)
        backtrace(bt, 14);
    while (s.lock.test_and_set(std::memory_order_acquire)) {}
    if (s.n == s.cap) {
        uint32_t c = s.cap ? s.cap * 2 : 4;
        auto* e = (Shard::E*) mmap(nullptr, c * sizeof(Shard::E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (uint32_t i = 0; i < s.n; i++)
            e[i] = s.e[i];
        if (s.e)
            munmap(s.e, s.cap * sizeof(Shard::E));
        s.e = e;
        s.cap = c;
    }
    Shard::E& x = s.e[s.n];
    x.p = p;
    for (int i = 0; i < 14; i++)
        x.bt[i] = bt[i];
    s.n++;
    s.lock.clear(std::memory_order_release);
    count++;
}
__attribute__((no_sanitize("address", "thread"))) static void del(Shard& s, const volatile void* p, std::atomic<int64_t>& count) {
    if (s.n == 0)
        return;
    while (s.lock.test_and_set(std::memory_order_acquire)) {}
    for (uint32_t i = 0; i < s.n; i++)
        if (s.e[i].p == p) {
            s.e[i] = s.e[s.n - 1];
            s.n--;
            count--;
            break;
        }
    s.lock.clear(std::memory_order_release);
}
#if defined(__has_feature) && __has_feature(thread_sanitizer)   // its locks would order the threads
static void live_put(void*) {}
static void live_del(const volatile void*) {}
#else
static void live_put(void* p) { put(shards[shard_of(p)], p, live_blocks); }
static void live_del(const volatile void* p) { del(shards[shard_of((const void*) p)], p, live_blocks); }
#endif
static std::atomic<bool> call_ever{false};
static void on_free(const volatile void* p) {
    poke();
    live_del(p);
    if (call_ever.load(std::memory_order_relaxed))
        del(call_shards[shard_of((const void*) p)], p, call_blocks);
}
// every block allocated inside a call on the library, by whatever part of the process
static void on_malloc(const volatile void* p, size_t) {
    poke();
    if (w_in_call && w_call_track.load(std::memory_order_relaxed)) {
        call_ever = true;
        put(call_shards[shard_of((const void*) p)], (void*) p, call_blocks);
    }
}
int64_t call_live_blocks() { return call_blocks; }
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*))
        __attribute__((weak));
__attribute__((constructor)) static void hook_frees() {
    if (__sanitizer_install_malloc_and_free_hooks)
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}
extern "C" {
void ta_live_dump() {
    for (auto* t : {shards, call_shards})
        for (uint32_t j = 0; j < SHARDS; j++)
        for (uint32_t i = 0; i < t[j].n; i++) {
            Shard& s = t[j];
            fprintf(stderr, "live block %p%s\n", s.e[i].p, t == shards ? "" : " (from a call)");
            backtrace_symbols_fd(s.e[i].bt, 14, 2);
        }
}
#define ALLOC(NAME) \
    void* __wrap_##NAME(size_t n) { \
        if (inject(false)) \
            return nullptr; \
        void* p = __real_##NAME(n); \
        if (p) \
            live_put(p); \
        return p; \
    }
ALLOC(memory_secure_alloc)
ALLOC(memory_internal_alloc)
#define REALLOC(NAME) \
    void* __wrap_##NAME(void* p, size_t n) { \
        if (inject()) \
            return nullptr; \
        if (p) \
            live_del(p); \
        void* q = __real_##NAME(p, n); \
        if (q || p) \
            live_put(q ? q : p); \
        return q; \
    }
REALLOC(memory_secure_realloc)
REALLOC(memory_internal_realloc)
#define FREE(NAME) \
    void __wrap_##NAME(void* p) { \
        if (p) \
            live_del(p); \
        perturb(); \
        __real_##NAME(p); \
    }
FREE(memory_secure_free)
FREE(memory_internal_free)

// the client library's allocations
static std::atomic<uint64_t> client_blocks{0};
extern "C++" uint64_t client_live_blocks() { return client_blocks; }
extern "C" void* w_client_malloc(size_t n) {
    if (inject(false))
        return nullptr;
    void* p = malloc(n);
    if (p)
        client_blocks.fetch_add(1, std::memory_order_relaxed);
    return p;
}
extern "C" void __real_free(void* p);
extern "C" void w_client_free(void* p) {
    if (p)
        client_blocks.fetch_sub(1, std::memory_order_relaxed);
    __real_free(p);
}
// what the code under test gives back to the system, from wherever it does so
void __real_free(void* p);
void __wrap_free(void* p) {
    scan(p, "free");
    __real_free(p);
}
void* __real_realloc(void* p, size_t n);
void* __wrap_realloc(void* p, size_t n) {
    Bytes old;
    if (w_scan_on && w_in_call && p) {
        old.resize(malloc_usable_size(p));
        raw_copy(old.data(), (const uint8_t*) p, old.size());
    }
    void* q = __real_realloc(p, n);
    if (!old.empty() && q && q != p)   // what a block held must survive only in the new one
        keep_freed(old.data(), old.size(), "realloc");
    return q;
}
// numbers and blocks of OpenSSL that the TA gives back itself
void __real_BN_free(BIGNUM* b);
void __wrap_BN_free(BIGNUM* b) {
    if (w_scan_on && w_in_call && b && !BN_get_flags(b, BN_FLG_STATIC_DATA)) {
        Bytes v((size_t) BN_num_bytes(b));
        BN_bn2bin(b, v.data());
        keep_freed(v.data(), v.size(), "BN_free");
    }
    __real_BN_free(b);
}
void __real_CRYPTO_free(void* p, const char* file, int line);
void __wrap_CRYPTO_free(void* p, const char* file, int line) {
    scan(p, "OPENSSL_free");
    __real_CRYPTO_free(p, file, line);
}
// OpenSSL's allocations, made while the TA calls it
static void* ossl_malloc(size_t n, const char*, int) { return n == 0 || inject(true) ? nullptr : malloc(n); }
static void* ossl_realloc(void* p, size_t n, const char*, int) {
    if (n == 0) {
        __real_free(p);
        return nullptr;
    }
    return inject(true) ? nullptr : __real_realloc(p, n);
}
static void ossl_free(void* p, const char*, int) { __real_free(p); }
extern "C" {
int __real_CRYPTO_set_mem_functions(CRYPTO_malloc_fn m, CRYPTO_realloc_fn r, CRYPTO_free_fn f);
// the TA's own hooks would make OpenSSL's caches look like its blocks
int __wrap_CRYPTO_set_mem_functions(CRYPTO_malloc_fn, CRYPTO_realloc_fn, CRYPTO_free_fn) { return 0; }
}
__attribute__((constructor)) static void hook_ossl() { __real_CRYPTO_set_mem_functions(ossl_malloc, ossl_realloc, ossl_free); }

// ---- mutexes: every lock is counted per thread; schedules are perturbed around them on request
static std::atomic<uint64_t> delay_seed{1};
static thread_local Rng* delay_rng = nullptr;
static thread_local uint64_t delay_rng_for = 0;
static void perturb() {
    if (!w_delay_on)
        return;
    uint64_t sd = delay_seed;
    if (!delay_rng || delay_rng_for != sd) {
        delete delay_rng;
        delay_rng = new Rng(mix64(sd, (uint64_t) pthread_self()));
        delay_rng_for = sd;
    }
    uint64_t v = delay_rng->next();
    if ((v & 7) == 0)
        sched_yield();
    else if ((v & 63) == 1)
        usleep((v >> 8) % 60);
    else if ((v & 511) == 2)
        usleep((v >> 9) % 400);
}
static int do_lock(pthread_mutex_t* m) {
    perturb();
    int r = 0;
    if (w_delay_on) {
        r = __real_pthread_mutex_trylock(m);
        if (r) {
            w_lock_contended.fetch_add(1, std::memory_order_relaxed);
            r = __real_pthread_mutex_lock(m);
        }
    } else
        r = __real_pthread_mutex_lock(m);
    if (r == 0) {
        w_locks_held++;
        w_lock_events.fetch_add(1, std::memory_order_relaxed);
    }
    poke();
    return r;
}
static int do_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    if (r == 0)
        w_locks_held--;
    perturb();
    return r;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return do_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return do_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_trylock(m);
    if (r == 0)
        w_locks_held++;
    return r;
}
static int thrd(int r) { return r == 0 ? thrd_success : r == EBUSY ? thrd_busy : thrd_error; }
int __wrap_mtx_init(mtx_t* m, int type) {
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_settype(&a, (type & mtx_recursive) ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_NORMAL);
    int r = pthread_mutex_init((pthread_mutex_t*) m, &a);
    pthread_mutexattr_destroy(&a);
    return thrd(r);
}
void __wrap_mtx_destroy(mtx_t* m) { pthread_mutex_destroy((pthread_mutex_t*) m); }
int __wrap_mtx_lock(mtx_t* m) { return thrd(do_lock((pthread_mutex_t*) m)); }
int __wrap_mtx_unlock(mtx_t* m) { return thrd(do_unlock((pthread_mutex_t*) m)); }
int __wrap_mtx_trylock(mtx_t* m) { return thrd(__wrap_pthread_mutex_trylock((pthread_mutex_t*) m)); }
void __wrap_call_once(once_flag* f, void (*fn)()) { pthread_once((pthread_once_t*) f, fn); }
int __wrap_cnd_init(cnd_t* c) { return thrd(pthread_cond_init((pthread_cond_t*) c, nullptr)); }
void __wrap_cnd_destroy(cnd_t* c) { pthread_cond_destroy((pthread_cond_t*) c); }
int __wrap_cnd_wait(cnd_t* c, mtx_t* m) { return thrd(pthread_cond_wait((pthread_cond_t*) c, (pthread_mutex_t*) m)); }
int __wrap_cnd_signal(cnd_t* c) { return thrd(pthread_cond_signal((pthread_cond_t*) c)); }
int __wrap_cnd_broadcast(cnd_t* c) { return thrd(pthread_cond_broadcast((pthread_cond_t*) c)); }
}

void w_delay_seed(uint64_t seed) { delay_seed = seed; }
uint64_t ta_live_blocks() { return (uint64_t) live_blocks.load(); }
void w_reset() {
    w_time_on = false;
    w_video_on = false;
    w_video_fail = false;
    w_regions_on = false;
    w_svp_release_fail = 0;
    w_delay_on = false;
    w_alloc_watch = false;
    w_fail_at = 0;
    w_fail_persist = false;
    w_fail_ossl = false;
    g_fp = nullptr;
    g_fault_scope = 0;
    w_scan_on = false;
    w_call_track = false;
    w_in_call = false;
    w_invoke = nullptr;
    w_poke = nullptr;
    w_poke_on = false;
    g_muted = false;
    w_secret_clear();
    w_caller_on = false;
    w_locks_held = 0;
    memset(&w_video, 0, sizeof w_video);
    w_video.digital_hdcp22_count = 1;
    w_video.svp_enabled = true;
    std::lock_guard<std::mutex> g(region_mu);
    regions.clear();
}

// ---- keys derived from the hardware ladder to protect stored keys (recorded when w_otp_on; none if the TA derives them otherwise)
std::atomic<bool> w_otp_on{false};
std::vector<std::pair<char, std::array<uint8_t, 48>>> w_otp_log;
std::vector<std::vector<uint8_t>> w_otp_material;
static void otp_note(char t, const void* in) {
    if (w_otp_on && in) {
        std::array<uint8_t, 48> a;
        memcpy(a.data(), in, 48);
        w_otp_log.push_back({t, a});
    }
    if (w_scan_on && in) {   // the key that protects a stored key
        bool watch = w_alloc_watch.exchange(false);
        Finally f{[watch] { w_alloc_watch = watch; }};
        const uint8_t* c = (const uint8_t*) in;
        ref_ladder(root_key(), Bytes(c, c + 16), Bytes(c + 16, c + 32), Bytes(c + 32, c + 48), nullptr);
    }
}
extern "C" {
sa_status __real_otp_wrap_aes_cbc(void* o, const void* l, const void* in, size_t n, const void* iv);
sa_status __wrap_otp_wrap_aes_cbc(void* o, const void* l, const void* in, size_t n, const void* iv) {
    otp_note('W', l);
    if (w_scan_on && in) {   // clear key material about to be protected
        Bytes m((const uint8_t*) in, (const uint8_t*) in + n);
        bool watch = w_alloc_watch.exchange(false);
        Finally f{[watch] { w_alloc_watch = watch; }};
        if (!secret_private(m))
            w_secret_add(in, n, "a symmetric key");
    }
    if (w_otp_on && in)
        w_otp_material.push_back(std::vector<uint8_t>((const uint8_t*) in, (const uint8_t*) in + n));
    return __real_otp_wrap_aes_cbc(o, l, in, n, iv);
}
sa_status __real_otp_hmac_sha256(void* m, const void* l, const void* a, size_t an, const void* b, size_t bn, const void* c, size_t cn);
sa_status __wrap_otp_hmac_sha256(void* m, const void* l, const void* a, size_t an, const void* b, size_t bn, const void* c, size_t cn) {
    otp_note('I', l);
    return __real_otp_hmac_sha256(m, l, a, an, b, bn, c, cn);
}
}

// ---- the system's random source, as the TA sees it
std::atomic<int> w_rand_result{1};
extern "C" {
int __real_RAND_bytes(unsigned char* p, int n);
int __wrap_RAND_bytes(unsigned char* p, int n) { return w_rand_result != 1 ? (int) w_rand_result : __real_RAND_bytes(p, n); }
int __real_RAND_priv_bytes(unsigned char* p, int n);
int __wrap_RAND_priv_bytes(unsigned char* p, int n) { return w_rand_result != 1 ? (int) w_rand_result : __real_RAND_priv_bytes(p, n); }
}
