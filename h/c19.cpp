// C19: the TA answers any command with a status, whatever its types, sizes and contents, and keeps working.
// Genuine commands of the client library are intercepted; altered copies go to the TA before them, or instead of them.
#include "containers.hpp"
#include "fails.hpp"
#include <sys/wait.h>
#include <unistd.h>
namespace {
enum { DN = 0, DI = 1, DO = 2, DB = 3 };   // none, in, out, both
int dir_of(uint32_t t) {
    switch (t) {
        case 0: return DN;
        case 5: case 0xD: return DI;
        case 6: case 0xE: return DO;
        case 7: case 0xF: return DB;
        default: return -1;
    }
}
struct Cmd {
    int id = 0;
    uint32_t t[4] = {0, 0, 0, 0};
    bool has[4] = {false, false, false, false};
    size_t nul[4] = {0, 0, 0, 0};   // size stated for a null reference
    Bytes b[4];
};
struct Spec {
    int id;
    const char* name;
    size_t size0;
    const char* p[3];   // r read, w written, b both, - absent; ? may be absent
    int len_at;         // offset of the length field that states the size of params[1], or -1
};
#define S(X) sizeof(X)
#define L(X, F) ((int) offsetof(X, F))
const Spec SPECS[] = {
        {SA_GET_VERSION, "get_version", S(sa_get_version_s), {"-", "-", "-"}, -1},
        {SA_GET_NAME, "get_name", S(sa_get_name_s), {"w?", "-", "-"}, L(sa_get_name_s, name_length)},
        {SA_GET_DEVICE_ID, "get_device_id", S(sa_get_device_id_s), {"-", "-", "-"}, -1},
        {SA_GET_TA_UUID, "get_ta_uuid", S(sa_get_ta_uuid_s), {"-", "-", "-"}, -1},
        {SA_KEY_GENERATE, "key_generate", S(sa_key_generate_s), {"r?", "r?", "-"}, -1},
        {SA_KEY_EXPORT, "key_export", S(sa_key_export_s), {"w?", "r?", "-"}, L(sa_key_export_s, out_length)},
        {SA_KEY_IMPORT, "key_import", S(sa_key_import_s), {"r", "r?", "-"}, -1},
        {SA_KEY_UNWRAP, "key_unwrap", S(sa_key_unwrap_s), {"r", "r?", "r?"}, -1},
        {SA_KEY_GET_PUBLIC, "key_get_public", S(sa_key_get_public_s), {"w?", "-", "-"}, L(sa_key_get_public_s, out_length)},
        {SA_KEY_DERIVE, "key_derive", S(sa_key_derive_s), {"r", "r?", "r?"}, -1},
        {SA_KEY_EXCHANGE, "key_exchange", S(sa_key_exchange_s), {"r", "b?", "-"}, -1},
        {SA_KEY_RELEASE, "key_release", S(sa_key_release_s), {"-", "-", "-"}, -1},
        {SA_KEY_HEADER, "key_header", S(sa_key_header_s), {"w", "-", "-"}, -1},
        {SA_KEY_DIGEST, "key_digest", S(sa_key_digest_s), {"w?", "-", "-"}, L(sa_key_digest_s, out_length)},
        {SA_CRYPTO_RANDOM, "crypto_random", S(sa_crypto_random_s), {"w", "-", "-"}, -1},
        {SA_CRYPTO_CIPHER_INIT, "cipher_init", S(sa_crypto_cipher_init_s), {"r?", "r?", "r?"}, -1},
        {SA_CRYPTO_CIPHER_UPDATE_IV, "cipher_update_iv", S(sa_crypto_cipher_update_iv_s), {"r", "-", "-"}, -1},
        {SA_CRYPTO_CIPHER_PROCESS, "cipher_process", S(sa_crypto_cipher_process_s), {"o?", "r", "b?"}, -1},
        {SA_CRYPTO_CIPHER_PROCESS_LAST, "cipher_process_last", S(sa_crypto_cipher_process_s), {"o?", "r", "b?"}, -1},
        {SA_CRYPTO_CIPHER_RELEASE, "cipher_release", S(sa_crypto_cipher_release_s), {"-", "-", "-"}, -1},
        {SA_CRYPTO_MAC_INIT, "mac_init", S(sa_crypto_mac_init_s), {"-", "-", "-"}, -1},
        {SA_CRYPTO_MAC_PROCESS, "mac_process", S(sa_crypto_mac_process_s), {"r?", "-", "-"}, -1},
        {SA_CRYPTO_MAC_PROCESS_KEY, "mac_process_key", S(sa_crypto_mac_process_key_s), {"-", "-", "-"}, -1},
        {SA_CRYPTO_MAC_COMPUTE, "mac_compute", S(sa_crypto_mac_compute_s), {"w?", "-", "-"}, L(sa_crypto_mac_compute_s, out_length)},
        {SA_CRYPTO_MAC_RELEASE, "mac_release", S(sa_crypto_mac_release_s), {"-", "-", "-"}, -1},
        {SA_CRYPTO_SIGN, "crypto_sign", S(sa_crypto_sign_s), {"w?", "r?", "-"}, L(sa_crypto_sign_s, out_length)},
        {SA_SVP_SUPPORTED, "svp_supported", S(sa_svp_supported_s), {"-", "-", "-"}, -1},
        {SA_SVP_BUFFER_CREATE, "svp_buffer_create", S(sa_svp_buffer_create_s), {"-", "-", "-"}, -1},
        {SA_SVP_BUFFER_RELEASE, "svp_buffer_release", S(sa_svp_buffer_release_s), {"-", "-", "-"}, -1},
        {SA_SVP_BUFFER_WRITE, "svp_buffer_write", S(sa_svp_buffer_write_s), {"r", "r", "-"}, -1},
        {SA_SVP_BUFFER_COPY, "svp_buffer_copy", S(sa_svp_buffer_copy_s), {"r", "-", "-"}, -1},
        {SA_SVP_KEY_CHECK, "svp_key_check", S(sa_svp_key_check_s), {"r", "r", "-"}, -1},
        {SA_SVP_BUFFER_CHECK, "svp_buffer_check", S(sa_svp_buffer_check_s), {"r", "-", "-"}, -1},
        {SA_PROCESS_COMMON_ENCRYPTION, "process_common_encryption", S(sa_process_common_encryption_s), {"r", "o", "r"}, -1},
        {SA_KEY_PROVISION_TA, "key_provision_ta", S(sa_key_provision_ta_s), {"r", "r?", "r"}, -1},
};
const Spec* spec_of(int id) {
    for (auto& s : SPECS)
        if (s.id == id)
            return &s;
    return nullptr;
}
template <class T> T& field(Bytes& b) { return *(T*) b.data(); }
template <class T> const T& field(const Bytes& b) { return *(const T*) b.data(); }
template <class T> T copy_of(const Bytes& b) {
    T t;
    memset(&t, 0, sizeof t);
    if (!b.empty())
        memcpy(&t, b.data(), std::min(b.size(), sizeof t));
    return t;
}
// Why the command must be refused, whatever objects exist; empty if that depends
std::string malformed(const Cmd& m) {
    const Spec* s = spec_of(m.id);
    if (!s)
        return "unknown command";
    if (!m.has[0] || m.b[0].size() != s->size0)
        return "size of the command";
    int d0 = dir_of(m.t[0]);
    if (d0 != DI && d0 != DB)
        return "type of the command";
    if (m.b[0][0] != API_VERSION)
        return "version";
    bool svp_out = false, svp_in = false, typed = false;
    if (m.id == SA_CRYPTO_CIPHER_PROCESS || m.id == SA_CRYPTO_CIPHER_PROCESS_LAST) {
        auto c = copy_of<sa_crypto_cipher_process_s>(m.b[0]);
        if (c.in_buffer_type > 1 || (m.has[1] && c.out_buffer_type > 1))
            return "buffer type";
        svp_out = c.out_buffer_type == SA_BUFFER_TYPE_SVP;
        svp_in = c.in_buffer_type == SA_BUFFER_TYPE_SVP;
        typed = true;
    } else if (m.id == SA_PROCESS_COMMON_ENCRYPTION) {
        auto c = copy_of<sa_process_common_encryption_s>(m.b[0]);
        if (c.in_buffer_type > 1 || c.out_buffer_type > 1)
            return "buffer type";
        svp_out = c.out_buffer_type == SA_BUFFER_TYPE_SVP;
        svp_in = c.in_buffer_type == SA_BUFFER_TYPE_SVP;
        typed = true;
        if ((unsigned __int128) c.subsample_count * sizeof(sa_subsample_length_s) != m.b[1].size())
            return "subsample count";
    } else if (m.id == SA_SVP_KEY_CHECK) {
        auto c = copy_of<sa_svp_key_check_s>(m.b[0]);
        if (c.in_buffer_type > 1)
            return "buffer type";
        if (c.in_buffer_type == SA_BUFFER_TYPE_SVP && m.b[1].size() < sizeof(sa_svp_buffer))
            return "size of an SVP reference";
    }
    for (int i = 1; i < 4; i++) {
        const char* p = s->p[i - 1];
        int d = dir_of(m.t[i]);
        bool given = d != DN || m.has[i] || m.nul[i];
        if (d < 0)
            return strf("type of params[%d]", i);
        if (p[0] == '-') {
            if (given)
                return strf("params[%d] given", i);
            continue;
        }
        if (!m.has[i] && !p[1])
            return strf("params[%d] missing", i);
        if (!m.has[i] && m.nul[i])
            continue;   // null with a size
        if (!m.has[i])
            continue;
        if (d == DN)
            return strf("params[%d] without a type", i);
        char want = p[0];
        if (want == 'o')
            want = svp_out ? 'r' : 'w';
        if (((want == 'r' || want == 'b') && !(d & DI)) || ((want == 'w' || (want == 'b' && m.id != SA_CRYPTO_CIPHER_PROCESS)) && !(d & DO)))
            return strf("direction of params[%d]", i);
    }
    if (typed) {
        int oi = m.id == SA_PROCESS_COMMON_ENCRYPTION ? 2 : 1, ii = oi + 1;
        if (svp_out && m.has[oi] && m.b[oi].size() < sizeof(sa_svp_buffer))
            return "size of an SVP reference";
        if (svp_in && m.b[ii].size() < sizeof(sa_svp_buffer))
            return "size of an SVP reference";
    }
    if (s->len_at >= 0) {
        uint64_t n;
        memcpy(&n, m.b[0].data() + s->len_at, 8);
        if (m.has[1] && n != m.b[1].size())
            return "stated length";
    }
    auto size_is = [&](int i, size_t n) { return m.has[i] && m.b[i].size() == n; };
    switch (m.id) {
        case SA_KEY_IMPORT:
            switch (copy_of<sa_key_import_s>(m.b[0]).key_format) {
                case SA_KEY_FORMAT_SYMMETRIC_BYTES: case SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO: case SA_KEY_FORMAT_EC_PRIVATE_BYTES:
                    return size_is(2, sizeof(sa_rights)) ? "" : "size of the rights";
                case SA_KEY_FORMAT_TYPEJ: return size_is(2, sizeof(sa_import_parameters_typej)) ? "" : "size of the parameters";
                case SA_KEY_FORMAT_SOC: return !m.has[2] || size_is(2, sizeof(sa_import_parameters_soc)) ? "" : "size of the parameters";
                case SA_KEY_FORMAT_EXPORTED: return "";
                default: return "format";
            }
        case SA_KEY_UNWRAP:
            switch (copy_of<sa_key_unwrap_s>(m.b[0]).cipher_algorithm) {
                case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR:
                    return size_is(2, sizeof(sa_unwrap_parameters_aes_iv_s)) ? "" : "size of the parameters";
                case SA_CIPHER_ALGORITHM_AES_GCM: {
                    auto q = copy_of<sa_unwrap_parameters_aes_gcm_s>(m.b[2]);
                    return !size_is(2, sizeof(sa_unwrap_parameters_aes_gcm_s)) ? "size of the parameters" :
                            q.iv_length > sizeof q.iv || q.tag_length > sizeof q.tag ? "length in the parameters" : "";
                }
                case SA_CIPHER_ALGORITHM_CHACHA20: {
                    auto q = copy_of<sa_unwrap_parameters_chacha20_s>(m.b[2]);
                    return !size_is(2, sizeof(sa_unwrap_parameters_chacha20_s)) ? "size of the parameters" :
                            q.nonce_length > sizeof q.nonce || q.counter_length > sizeof q.counter ? "length in the parameters" : "";
                }
                case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: {
                    auto q = copy_of<sa_unwrap_parameters_chacha20_poly1305_s>(m.b[2]);
                    return !size_is(2, sizeof(sa_unwrap_parameters_chacha20_poly1305_s)) ? "size of the parameters" :
                            q.nonce_length > sizeof q.nonce || q.tag_length > sizeof q.tag ? "length in the parameters" : "";
                }
                case SA_CIPHER_ALGORITHM_EC_ELGAMAL: return size_is(2, sizeof(sa_unwrap_parameters_ec_elgamal_s)) ? "" : "size of the parameters";
                case SA_CIPHER_ALGORITHM_RSA_OAEP: return size_is(2, sizeof(sa_unwrap_parameters_rsa_oaep_s)) ? "" : "size of the parameters";
                default: return "";
            }
        case SA_KEY_DERIVE:
            switch (copy_of<sa_key_derive_s>(m.b[0]).kdf_algorithm) {
                case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER:
                    return size_is(1, sizeof(sa_kdf_parameters_root_key_ladder_s)) ? "" : "size of the parameters";
                case SA_KDF_ALGORITHM_HKDF: return size_is(1, sizeof(sa_kdf_parameters_hkdf_s)) ? "" : "size of the parameters";
                case SA_KDF_ALGORITHM_CONCAT: return size_is(1, sizeof(sa_kdf_parameters_concat_s)) ? "" : "size of the parameters";
                case SA_KDF_ALGORITHM_ANSI_X963: return size_is(1, sizeof(sa_kdf_parameters_ansi_x963_s)) ? "" : "size of the parameters";
                case SA_KDF_ALGORITHM_CMAC: return size_is(1, sizeof(sa_kdf_parameters_cmac_s)) ? "" : "size of the parameters";
                case SA_KDF_ALGORITHM_NETFLIX: return size_is(1, sizeof(sa_kdf_parameters_netflix_s)) ? "" : "size of the parameters";
                default: return "algorithm";
            }
        case SA_KEY_EXCHANGE:
            return copy_of<sa_key_exchange_s>(m.b[0]).key_exchange_algorithm == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH &&
                            !size_is(2, sizeof(sa_key_exchange_parameters_netflix_authenticated_dh_s)) ? "size of the parameters" : "";
        case SA_KEY_HEADER: return size_is(1, sizeof(sa_header_s)) ? "" : "size of the header";
        case SA_CRYPTO_CIPHER_INIT:
            return copy_of<sa_crypto_cipher_init_s>(m.b[0]).cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_OAEP &&
                            !size_is(1, sizeof(sa_cipher_parameters_rsa_oaep_s)) ? "size of the parameters" : "";
        case SA_SVP_BUFFER_WRITE: return m.b[2].size() % sizeof(sa_svp_offset_s) ? "size of the offsets" : "";
        case SA_SVP_BUFFER_COPY: return m.b[1].size() % sizeof(sa_svp_offset_s) ? "size of the offsets" : "";
        case SA_KEY_PROVISION_TA: {
            if (!size_is(3, sizeof(sa_key_type_ta)) || (m.has[2] && !size_is(2, sizeof(sa_import_parameters_soc))))
                return "size of the parameters";
            size_t n = 0;
            switch ((int) copy_of<sa_key_type_ta>(m.b[3])) {
                case WIDEVINE_OEM_PROVISIONING: n = sizeof(WidevineOemProvisioning); break;
                case PLAYREADY_MODEL_PROVISIONING: n = sizeof(PlayReadyProvisioning); break;
                case NETFLIX_PROVISIONING: n = sizeof(NetflixProvisioning); break;
                default: return "provisioning type";
            }
            return size_is(1, n) ? "" : "size of the object";
        }
        default: return "";
    }
}

// ---------------------------------------------------------------- sending
void* g_ctx;
std::vector<uint64_t> g_keep;      // handles of objects that must survive
std::vector<uint64_t> g_pool;      // handles seen
std::vector<Cmd> g_corpus;         // commands seen, of any kind
Rng* g_r;
int64_t g_target;                  // alter the command with this number
size_t g_sent, g_accepted, g_refused, g_pokes;
bool g_armed;

Cmd capture(int id, const uint32_t* t, const ta_param* p) {
    Cmd c;
    c.id = id;
    for (int i = 0; i < 4; i++) {
        c.t[i] = t[i];
        c.has[i] = p[i].mem_ref != nullptr;
        if (c.has[i])
            c.b[i] = Bytes((uint8_t*) p[i].mem_ref, (uint8_t*) p[i].mem_ref + p[i].mem_ref_size);
        else
            c.nul[i] = p[i].mem_ref_size;
    }
    return c;
}
struct Poke {      // what happens to shared memory while the command runs
    int param = -1, mode = 0;
    int64_t at = 0, seen = 0;
    Bytes other;
    volatile uint8_t* p = nullptr;
    Bytes first;
};
Poke g_pk;
void write_shared(const Bytes& b) {
    for (size_t i = 0; i < b.size(); i++)
        g_pk.p[i] = b[i];
}
void on_poke() {
    int64_t n = ++g_pk.seen;
    if (g_pk.mode == 0 ? n == g_pk.at : n >= g_pk.at) {
        write_shared(g_pk.mode == 2 && ((n - g_pk.at) & 1) ? g_pk.first : g_pk.other);
        g_pokes++;
    }
}
std::string show(const Cmd& m) {
    const Spec* s = spec_of(m.id);
    std::string o = strf("%s(%d)", s ? s->name : "?", m.id);
    for (int i = 0; i < 4; i++)
        o += m.has[i] ? strf(" [%u %zu %s]", m.t[i], m.b[i].size(), hex(m.b[i], i ? 24 : 96).c_str()) : strf(" [%u null %zu]", m.t[i], m.nul[i]);
    return o;
}
// Runs a command as the TA gets it; leaves in m what the REE then sees. Reports what no command may cause.
int send(Cmd& m, const Poke* pk = nullptr, bool through = false) {
    std::unique_ptr<GBuf> g[4];
    ta_param p[4];
    for (int i = 0; i < 4; i++) {
        if (m.has[i])
            g[i].reset(new GBuf(m.b[i]));
        p[i] = {m.has[i] ? g[i]->p : nullptr, m.has[i] ? m.b[i].size() : m.nul[i]};
    }
    uint32_t t[4] = {m.t[0], m.t[1], m.t[2], m.t[3]};
    std::thread th;
    std::atomic<bool> stop{false}, ready{false};
    w_caller = UUID_REE;
    w_caller_on = true;
    if (pk) {
        g_pk = *pk;
        g_pk.p = g[pk->param]->p;
        g_pk.first = m.b[pk->param];
        if (pk->mode == 3) {
            th = std::thread([&] {
                bool x = false;
                while (!stop) {
                    write_shared((x = !x) ? g_pk.other : g_pk.first);
                    ready = true;
                }
            });
            while (!ready) {}
        } else {
            w_poke = on_poke;
            w_poke_on = true;
        }
    }
    sa_status st = __real_ta_invoke_command_handler(g_ctx, (SA_COMMAND_ID) m.id, t, p);
    if (pk) {
        w_poke_on = false;
        w_poke = nullptr;
        stop = true;
        if (th.joinable())
            th.join();
    }
    const Spec* s = spec_of(m.id);
    const char* name = s ? s->name : "unknown";
    if ((int) st < 0 || (int) st > SA_STATUS_HW_ERROR)
        viol_async(strf("status:%s", name), "the TA answered %d", (int) st);
    if (w_locks_held) {
        viol_async(strf("lock:%s", name), "%s came back with %d locks held", name, w_locks_held);
        w_locks_held = 0;
    }
    for (int i = 0; i < 4; i++) {
        if (p[i].mem_ref != (m.has[i] ? (void*) g[i]->p : nullptr) || t[i] != m.t[i])
            viol_async(strf("params-changed:%s", name), "%s changed its parameter array", name);
        if (!m.has[i])
            continue;
        Bytes now = g[i]->get();
        if (!g[i]->guards_ok())
            viol_async(strf("outside:%s", name), "%s wrote next to params[%d]", name, i);
        bool poked = pk && pk->param == i;
        int d = dir_of(m.t[i]);
        if (!poked && !(d > 0 && (d & DO)) && now != m.b[i])
            viol_async(strf("wrote-input:%s:%d", name, i), "%s changed params[%d], which it was given to read: %s", name, i, show(m).c_str());
        // memory the TA's allocator or compiler filled with its pattern
        size_t run = 0;
        for (size_t j = 0; j < now.size(); j++) {
            bool fill = (now[j] == 0xBE || now[j] == 0xAA) && (poked ? now[j] != g_pk.first[j] && now[j] != g_pk.other[j] : now[j] != m.b[i][j]);
            run = fill && (run == 0 || now[j] == now[j - 1]) ? run + 1 : fill;
            if (run >= 6)
                viol_async(strf("discloses:%s:%d", name, i), "%s gave back memory it never wrote in params[%d] at %zu: %s", name, i, j, hex(now, 200).c_str());
        }
        m.b[i] = now;
    }
    if (!through)
        (st == SA_STATUS_OK ? g_accepted : g_refused)++;
    return st;
}
void release_by(int id, uint64_t h, const Cmd& by) {
    if (h == INVALID_HANDLE)
        return;
    Cmd c;
    c.id = id;
    c.t[0] = id == SA_SVP_BUFFER_RELEASE ? 7 : 5;
    c.has[0] = true;
    const Spec* s = spec_of(id);
    c.b[0] = Bytes(s->size0, 0);
    c.b[0][0] = API_VERSION;
    size_t at = id == SA_KEY_RELEASE ? offsetof(sa_key_release_s, key) : id == SA_CRYPTO_CIPHER_RELEASE ? offsetof(sa_crypto_cipher_release_s, cipher_context) :
                id == SA_CRYPTO_MAC_RELEASE ? offsetof(sa_crypto_mac_release_s, context) : offsetof(sa_svp_buffer_release_s, svp_buffer);
    memcpy(c.b[0].data() + at, &h, 8);
    int st = send(c, nullptr, true);
    if (st != SA_STATUS_OK)
        viol_async(strf("release:%s", s->name), "the handle %llu that %s created could not be released: %s", (unsigned long long) h, show(by).c_str(), status_name(st));
}
// The handles an accepted command created, with the command that releases each
std::vector<std::pair<int, uint64_t>> created(const Cmd& m) {
    switch (m.id) {
        case SA_KEY_GENERATE: return {{SA_KEY_RELEASE, copy_of<sa_key_generate_s>(m.b[0]).key}};
        case SA_KEY_IMPORT: return {{SA_KEY_RELEASE, copy_of<sa_key_import_s>(m.b[0]).key}};
        case SA_KEY_PROVISION_TA: return {{SA_KEY_RELEASE, copy_of<sa_key_provision_ta_s>(m.b[0]).key}};
        case SA_KEY_UNWRAP: return {{SA_KEY_RELEASE, copy_of<sa_key_unwrap_s>(m.b[0]).key}};
        case SA_KEY_DERIVE: return {{SA_KEY_RELEASE, copy_of<sa_key_derive_s>(m.b[0]).key}};
        case SA_KEY_EXCHANGE: {
            auto c = copy_of<sa_key_exchange_s>(m.b[0]);
            if (c.key_exchange_algorithm != SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH)
                return {{SA_KEY_RELEASE, c.key}};
            auto n = copy_of<sa_key_exchange_parameters_netflix_authenticated_dh_s>(m.b[2]);
            return {{SA_KEY_RELEASE, c.key}, {SA_KEY_RELEASE, n.out_ke}, {SA_KEY_RELEASE, n.out_kh}};
        }
        case SA_CRYPTO_CIPHER_INIT: return {{SA_CRYPTO_CIPHER_RELEASE, copy_of<sa_crypto_cipher_init_s>(m.b[0]).context}};
        case SA_CRYPTO_MAC_INIT: return {{SA_CRYPTO_MAC_RELEASE, copy_of<sa_crypto_mac_init_s>(m.b[0]).context}};
        case SA_SVP_BUFFER_CREATE: return {{SA_SVP_BUFFER_RELEASE, copy_of<sa_svp_buffer_create_s>(m.b[0]).svp_buffer}};
        default: return {};
    }
}
bool changes_objects(int id) {
    switch (id) {
        case SA_KEY_RELEASE: case SA_CRYPTO_CIPHER_UPDATE_IV: case SA_CRYPTO_CIPHER_PROCESS: case SA_CRYPTO_CIPHER_PROCESS_LAST: case SA_CRYPTO_CIPHER_RELEASE:
        case SA_CRYPTO_MAC_PROCESS: case SA_CRYPTO_MAC_PROCESS_KEY: case SA_CRYPTO_MAC_COMPUTE: case SA_CRYPTO_MAC_RELEASE: case SA_SVP_BUFFER_RELEASE:
        case SA_SVP_BUFFER_WRITE: case SA_SVP_BUFFER_COPY: case SA_PROCESS_COMMON_ENCRYPTION: return true;
        default: return false;
    }
}

// ---------------------------------------------------------------- altering
uint64_t word(Rng& r, uint64_t old) {
    switch (r.below(10)) {
        case 0: return r.below(8);
        case 1: return r.below(40);
        case 2: return old + 1;
        case 3: return old - 1;
        case 4: return r.pick<uint64_t>({UINT64_MAX, UINT32_MAX, INT32_MAX, (uint64_t) INT64_MAX, (uint64_t) INT64_MIN, 1ull << 32, 1ull << 31, UINT16_MAX, 0x10000});
        case 5: return old + r.pick<uint64_t>({1ull << 60, 1ull << 61, 1ull << 63, 1ull << 32});
        case 6: return UINT64_MAX - r.below(64);
        case 7: return old ^ (1ull << r.below(64));
        case 8: return g_pool.empty() ? r.next() : r.pick(g_pool);
        default: return r.pick<uint64_t>({old * 2, old / 2, 16, 32, 64, 65, 128, 129, 256, 4096, r.next()});
    }
}
size_t other_size(Rng& r, size_t n) {
    return (size_t) r.pick<uint64_t>({0, 1, 7, 8, 9, n ? n - 1 : 1, n + 1, n / 2, n * 2, n + 8, n > 8 ? n - 8 : 2, n + 16, 15, 16, 17, 24, 48, 64, 4096, r.below(200)});
}
void resize(Rng& r, Bytes& b, size_t n) {
    size_t o = b.size();
    b.resize(n);
    for (size_t i = o; i < n; i++)
        b[i] = (uint8_t) (r.next() >> 24);
}
bool keeps_away(const Cmd& m, const Cmd* g) {
    for (int i = 0; i < 3; i++)
        for (size_t o = 0; o + 8 <= m.b[i].size(); o += 8) {
            uint64_t v, w = 0;
            memcpy(&v, m.b[i].data() + o, 8);
            bool had = g && o + 8 <= g->b[i].size() && (memcpy(&w, g->b[i].data() + o, 8), v == w);
            if (!had && std::find(g_keep.begin(), g_keep.end(), v) != g_keep.end())
                return false;
        }
    if (m.id == SA_KEY_GENERATE && m.b[0].size() >= sizeof(sa_key_generate_s)) {   // takes long
        auto c = copy_of<sa_key_generate_s>(m.b[0]);
        if (c.key_type == SA_KEY_TYPE_RSA && (c.key_length == 384 || c.key_length == 512))
            return false;
    }
    // provisioning takes pointers: those are used as the client made them, or what holds them has another size
    if (m.id == SA_KEY_PROVISION_TA && malformed(m) != "size of the object" && !(g && g->id == m.id && g->b[1] == m.b[1] && g->b[3] == m.b[3]))
        return !m.has[1] || !m.has[3] || m.b[3].size() != 4 || malformed(m) == "provisioning type";
    return true;
}
void alter_once(Rng& r, Cmd& m) {
    int i = (int) r.below(4);
    int tries = 0;
    while (!m.has[i] && tries++ < 3)
        i = (int) r.below(4);
    const uint32_t types[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0xC, 0xD, 0xE, 0xF, 0x10, 0x15, 0x105, UINT32_MAX, 0x80000005};
    switch (r.below(14)) {
        case 0: m.id = r.coin() ? SPECS[r.below(ARRAY_N(SPECS))].id : r.pick({0, -1, 28, 30, 38, 39, 64, 255, 256, INT32_MAX, INT32_MIN}); break;
        case 1: m.t[r.below(4)] = r.pick(types); break;
        case 2: m.t[i] = r.pick<uint32_t>({5, 6, 7, 0xD, 0xE, 0xF}); break;
        case 3:
            m.nul[i] = r.coin() ? m.b[i].size() : r.coin() ? 0 : other_size(r, m.b[i].size());
            m.has[i] = false;
            m.b[i].clear();
            if (r.coin())
                m.t[i] = 0;
            break;
        case 4: if (m.has[i]) resize(r, m.b[i], other_size(r, m.b[i].size())); break;
        case 5:
            if (m.has[0] && !m.b[0].empty())
                m.b[0][0] = (uint8_t) r.pick<uint64_t>({0, 2, 255, 128, 129, r.below(256)});
            break;
        case 6: case 7: case 8:
            if (m.b[0].size() >= 8) {
                size_t o = 8 * r.below(m.b[0].size() / 8);
                bool half = r.coin();
                uint64_t v = 0;
                memcpy(&v, m.b[0].data() + o, 8);
                if (half) {
                    o += 4 * r.below(2);
                    uint32_t q;
                    memcpy(&q, m.b[0].data() + o, 4);
                    q = (uint32_t) word(r, q);
                    memcpy(m.b[0].data() + o, &q, 4);
                } else {
                    v = word(r, v);
                    memcpy(m.b[0].data() + o, &v, 8);
                }
            }
            break;
        case 9:
            if (m.b[i].size() >= 8) {
                size_t o = 8 * r.below(m.b[i].size() / 8);
                uint64_t v;
                memcpy(&v, m.b[i].data() + o, 8);
                v = word(r, v);
                memcpy(m.b[i].data() + o, &v, 8);
            }
            break;
        case 10:
            if (!m.b[i].empty())
                for (size_t n = r.range(1, 4); n--;)
                    m.b[i][r.below(m.b[i].size())] = (uint8_t) (r.next() >> 20);
            break;
        case 11: {   // a parameter where there was none
            for (int j = 1; j < 4; j++)
                if (!m.has[j]) {
                    m.has[j] = true;
                    m.nul[j] = 0;
                    m.t[j] = r.coin() ? r.pick<uint32_t>({5, 6, 7}) : r.pick(types);
                    m.b[j] = r.bytes(other_size(r, 16));
                    break;
                }
            break;
        }
        case 12: {
            int j = (int) r.below(4);
            std::swap(m.b[i], m.b[j]);
            std::swap(m.has[i], m.has[j]);
            std::swap(m.nul[i], m.nul[j]);
            if (r.coin())
                std::swap(m.t[i], m.t[j]);
            break;
        }
        default: {   // another size, and the field that states it with it
            int j = (int) r.range(1, 3);
            if (!m.has[j])
                break;
            uint64_t old = m.b[j].size(), n = other_size(r, old), v;
            for (size_t o = 8; o + 8 <= m.b[0].size(); o += 8)
                if (memcpy(&v, m.b[0].data() + o, 8), v == old)
                    memcpy(m.b[0].data() + o, &n, 8);
            resize(r, m.b[j], n);
        }
    }
}
Cmd alter(Rng& r, const Cmd& g, bool* ok) {
    for (int tries = 0; tries < 20; tries++) {
        Cmd m = g;
        if (r.chance(4)) {   // nothing to do with the genuine one
            m.id = SPECS[r.below(ARRAY_N(SPECS))].id;
            const Spec* s = spec_of(m.id);
            for (int i = 0; i < 4; i++) {
                m.has[i] = r.chance(85);
                m.t[i] = i == 0 ? r.pick<uint32_t>({5, 7, 7}) : m.has[i] ? r.pick<uint32_t>({5, 6, 7}) : 0;
                m.nul[i] = 0;
                m.b[i] = m.has[i] ? r.bytes(i == 0 ? s->size0 : other_size(r, 32)) : Bytes();
            }
            if (m.has[0])
                m.b[0][0] = API_VERSION;
        } else if (r.chance(6) && !g_corpus.empty()) {   // parameters of another command
            const Cmd& c = r.pick(g_corpus);
            m.id = c.id;
            int i = (int) r.below(4);
            if (r.coin()) {
                m = c;
                m.b[i] = g.b[i];
                m.has[i] = g.has[i];
                m.t[i] = g.t[i];
                m.nul[i] = g.nul[i];
            } else {
                m.b[i] = c.b[i];
                m.has[i] = c.has[i];
                m.t[i] = c.t[i];
                m.nul[i] = c.nul[i];
            }
        } else
            for (size_t n = r.pick({1, 1, 1, 2, 3}); n--;)
                alter_once(r, m);
        bool same = m.id == g.id;
        for (int i = 0; i < 4; i++)
            same = same && m.t[i] == g.t[i] && m.has[i] == g.has[i] && m.nul[i] == g.nul[i] && m.b[i] == g.b[i];
        if (!same && keeps_away(m, m.id == g.id ? &g : nullptr)) {
            *ok = true;
            return m;
        }
    }
    *ok = false;
    return g;
}
// The TA may read a word while only some of its bytes have changed
bool may_tear_into_kept(const Bytes& a, const Bytes& b) {
    for (size_t o = 0; o + 8 <= a.size(); o += 8)
        for (uint64_t k : g_keep) {
            bool can = true, is_old = true;
            for (int j = 0; j < 8; j++) {
                uint8_t x = (uint8_t) (k >> 8 * j);
                can = can && (x == a[o + j] || x == b[o + j]);
                is_old = is_old && x == a[o + j];
            }
            if (can && !is_old)
                return true;
        }
    return false;
}
// Memory to switch to while the command runs
Poke poke_plan(Rng& r, const Cmd& g, bool* ok) {
    Poke p;
    *ok = false;
    for (int tries = 0; tries < 8 && !*ok; tries++) {
        int i = (int) r.below(4);
        if (!g.has[i] || g.b[i].empty() || (g.id == SA_KEY_PROVISION_TA && i == 1) || (g.id == SA_KEY_PROVISION_TA && i == 3))
            continue;
        p.param = i;
        Cmd m = g;
        for (size_t n = r.range(1, 3); n--;) {
            if (m.b[i].size() >= 8 && r.coin()) {
                size_t o = 8 * r.below(m.b[i].size() / 8);
                uint64_t v;
                memcpy(&v, m.b[i].data() + o, 8);
                v = word(r, v);
                memcpy(m.b[i].data() + o, &v, 8);
            } else
                m.b[i][r.below(m.b[i].size())] ^= (uint8_t) (1 << r.below(8));
        }
        if (m.b[i] == g.b[i] || !keeps_away(m, &g) || may_tear_into_kept(g.b[i], m.b[i]) || (g.id == SA_SVP_BUFFER_CREATE && i == 0))
            continue;
        p.other = m.b[i];
        *ok = true;
    }
    p.mode = (int) r.pick({0, 0, 0, 0, 1, 2, 2, 3});
    p.at = (int64_t) (r.coin() ? r.range(1, 12) : r.range(1, 120));
    return p;
}
// A container changed in transit while it is imported: what is imported is what was authenticated
Bytes changed_container(Rng& r, const Bytes& a, bool text) {
    Bytes b = a;
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    size_t n = r.range(1, 3), from = text ? b.size() / 8 : 0;
    while (n--) {
        size_t i = from + r.below(b.size() - from);
        if (text) {
            if (b[i] != '.')
                b[i] = (uint8_t) al[r.below(64)];
        } else
            b[i] ^= (uint8_t) (1 << r.below(8));
    }
    return b;
}
struct KeyView { int st; Bytes header, digest; };
KeyView view(uint64_t h) {
    KeyView v{};
    Cmd c;
    c.id = SA_KEY_HEADER;
    c.t[0] = 7;
    c.t[1] = 6;
    c.has[0] = c.has[1] = true;
    sa_key_header_s hs;
    memset(&hs, 0, sizeof hs);
    hs.api_version = API_VERSION;
    hs.key = h;
    c.b[0] = Bytes((uint8_t*) &hs, (uint8_t*) (&hs + 1));
    c.b[1] = Bytes(sizeof(sa_header_s), 0);
    v.st = send(c, nullptr, true);
    v.header = c.b[1];
    Cmd d;
    d.id = SA_KEY_DIGEST;
    d.t[0] = 7;
    d.t[1] = 6;
    d.has[0] = d.has[1] = true;
    sa_key_digest_s ds;
    memset(&ds, 0, sizeof ds);
    ds.api_version = API_VERSION;
    ds.key = h;
    ds.out_length = 32;
    ds.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
    d.b[0] = Bytes((uint8_t*) &ds, (uint8_t*) (&ds + 1));
    d.b[1] = Bytes(32, 0);
    v.digest = Bytes(1, (uint8_t) send(d, nullptr, true));
    app(v.digest, d.b[1]);
    return v;
}
bool authenticated(const Cmd& g) {
    if (g.id == SA_KEY_IMPORT) {
        auto f = copy_of<sa_key_import_s>(g.b[0]).key_format;
        return f == SA_KEY_FORMAT_TYPEJ || f == SA_KEY_FORMAT_SOC || f == SA_KEY_FORMAT_EXPORTED;
    }
    if (g.id == SA_KEY_UNWRAP) {
        auto a = copy_of<sa_key_unwrap_s>(g.b[0]).cipher_algorithm;
        return a == SA_CIPHER_ALGORITHM_AES_GCM || a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    }
    return false;
}
void toctou(Rng& r, const Cmd& g) {
    Cmd a = g;
    if (send(a, nullptr, true) != SA_STATUS_OK)
        return;
    auto made = created(a);
    KeyView want = view(made[0].second);
    release_by(made[0].first, made[0].second, a);
    bool text = g.id == SA_KEY_IMPORT && copy_of<sa_key_import_s>(g.b[0]).key_format != SA_KEY_FORMAT_EXPORTED;
    for (int i = 0; i < 3; i++) {
        Poke p;
        p.param = 1;
        p.other = changed_container(r, g.b[1], text);
        p.mode = (int) r.pick({0, 0, 0, 2, 3});
        p.at = (int64_t) r.range(1, 60);
        Cmd m = g;
        int st = send(m, &p);
        trace("%s with changes while it runs (mode %d at %lld of %lld) -> %s", spec_of(g.id)->name, p.mode, (long long) p.at, (long long) g_pk.seen, status_name(st));
        cov(strf("changing-container:%s", st ? "refused" : "accepted"));
        if (st == SA_STATUS_OK) {
            auto c = created(m);
            KeyView got = view(c[0].second);
            if (got.header != want.header || got.digest != want.digest)
                viol_async(strf("changed-after-check:%s", spec_of(g.id)->name), "memory changed while it was imported, and the key that resulted is not the authenticated one");
            release_by(c[0].first, c[0].second, m);
        }
    }
}
// What the client's command reaches: altered versions first
sa_status intercept(void*, SA_COMMAND_ID id, const uint32_t* t, ta_param* p) {
    if (g_muted && !(id == SA_KEY_RELEASE || id == SA_CRYPTO_CIPHER_RELEASE || id == SA_CRYPTO_MAC_RELEASE || id == SA_SVP_BUFFER_RELEASE))
        return SA_STATUS_INTERNAL_ERROR;
    if (id == SA_SVP_BUFFER_CREATE) {
        auto* c = (sa_svp_buffer_create_s*) p[0].mem_ref;
        w_region_add((void*) c->svp_memory, c->size);
    }
    bool taint = false;
    bool plain = id == SA_KEY_RELEASE || id == SA_CRYPTO_MAC_RELEASE || id == SA_CRYPTO_CIPHER_RELEASE || id == SA_KEY_HEADER || id == SA_KEY_DIGEST;
    if (g_armed && !g_muted && g_target == 0 && plain && g_r->chance(70))
        g_target = 1;   // these come often
    if (g_armed && !g_muted && g_target-- == 0) {
        Rng& r = *g_r;
        Cmd g = capture(id, t, p);
        if (g_corpus.size() < 300)
            g_corpus.push_back(g);
        else
            g_corpus[r.below(300)] = g;
        if (g.id == SA_KEY_PROVISION_TA)
            g_corpus.pop_back();
        std::string why = malformed(g);
        if (!why.empty() && g.id != SA_KEY_IMPORT && g.id != SA_KEY_DERIVE && g.id != SA_KEY_UNWRAP)
            cov("client-sent:" + why);
        if (authenticated(g) && r.chance(60))
            toctou(r, g);
        for (size_t n = r.range(1, 4); n-- && !taint;) {
            bool ok;
            Cmd m = g;
            Poke pk;
            bool poked = r.chance(25);
            if (poked)
                pk = poke_plan(r, g, &ok);
            else
                m = alter(r, g, &ok);
            if (!ok)
                continue;
            std::string bad = poked ? "" : malformed(m);
            Cmd was = m;
            g_sent++;
            if (g_verbose)
                trace("%s%s", show(m).c_str(), poked ? strf(" params[%d] changing, mode %d at %lld", pk.param, pk.mode, (long long) pk.at).c_str() : "");
            int st = send(m, poked ? &pk : nullptr);
            trace("%s -> %s", show(was).c_str(), status_name(st));
            const Spec* s = spec_of(m.id);
            cov(strf("%s:%s", s ? s->name : "unknown", poked ? "changing" : st ? "refused" : "accepted"));
            if (!bad.empty()) {
                cov("malformed:" + bad);
                if (st == SA_STATUS_OK)
                    viol_async(strf("accepted:%s:%s", s ? s->name : "unknown", bad.c_str()), "a command that is malformed (%s) was accepted: %s", bad.c_str(), show(was).c_str());
            }
            if (st == SA_STATUS_OK) {
                auto made = dir_of(m.t[0]) == DB ? created(m) : std::vector<std::pair<int, uint64_t>>();
                if (poked && (pk.param == 0 || m.id == SA_KEY_EXCHANGE) && !made.empty())
                    made.clear();   // the handle may have been overwritten: the session's end releases it
                for (auto& x : made)
                    release_by(x.first, x.second, was);
                taint = changes_objects(m.id);
                if (m.id == SA_SVP_BUFFER_RELEASE && m.t[0] == 7) {
                    auto c = copy_of<sa_svp_buffer_release_s>(m.b[0]);
                    if (!poked)
                        w_region_del((void*) c.svp_memory);
                }
            } else if (poked && changes_objects(m.id))
                taint = true;
            else if (changes_objects(m.id) && (m.id == SA_CRYPTO_CIPHER_PROCESS_LAST || st == SA_STATUS_INTERNAL_ERROR || st == SA_STATUS_VERIFICATION_FAILED))
                taint = true;   // a context may be spent after that
            nontrivial(hash_bytes(bad.data(), bad.size(), mix64((uint64_t) m.id * 64 + (uint64_t) st, mix64(m.t[1] * 4096 + m.t[2] * 64 + m.t[3], m.b[1].size()))));
        }
    }
    if (taint) {
        g_muted = true;
        return SA_STATUS_INTERNAL_ERROR;
    }
    sa_status st = __real_ta_invoke_command_handler(g_ctx, id, t, p);
    if (st == SA_STATUS_OK) {
        if (g_armed) {
            Cmd c = capture(id, t, p);
            for (auto& x : created(c))
                if (g_pool.size() < 64)
                    g_pool.push_back(x.second);
        }
        if (id == SA_SVP_BUFFER_RELEASE)
            w_region_del((void*) ((sa_svp_buffer_release_s*) p[0].mem_ref)->svp_memory);
    }
    return st;
}

// ---------------------------------------------------------------- what the client library is made to do
void misc(Sess& s, Rng& r) {
    char name[64];
    size_t n = sizeof name;
    uint64_t id;
    sa_uuid u;
    sa_version v;
    switch (r.below(8)) {
        case 0: SA(s, get_name, nullptr, &n); SA(s, get_name, name, &n); break;
        case 1: SA(s, get_device_id, &id); break;
        case 2: SA(s, get_ta_uuid, &u); break;
        case 3: SA(s, get_version, &v); break;
        case 4: {
            GBuf b(r.range(1, 300));
            if (SA(s, crypto_random, b.p, b.n) != SA_STATUS_OK)
                viol("use-refused:random", "random refused");
            break;
        }
        case 5: sa_svp_supported(); break;
        default: {
            KInfo k = make_key(s, r, (KK) r.below(K_COUNT), rights_all());
            sa_header h;
            sa_status st = SA(s, key_header, &h, k.h);
            if (st != SA_STATUS_OK)
                viol("use-refused:header", "key_header gave %s", status_name(st));
            if (!rights_equal(h.rights, k.rights))
                viol("use-wrong:header", "another key's header");
            Bytes out, pub, dg;
            Bytes mix = r.bytes(16);
            if ((st = key_export(s, k.h, r.coin() ? &mix : nullptr, &out)) != SA_STATUS_OK)
                viol("use-refused:export", "key_export gave %s", status_name(st));
            key_pub(s, k.h, &pub);
            key_digest(s, k.h, SA_DIGEST_ALGORITHM_SHA256, &dg);
            sa_key k2 = INVALID_HANDLE;
            GBuf g(out);
            if ((st = SA(s, key_import, &k2, SA_KEY_FORMAT_EXPORTED, g.p, g.n, nullptr)) != SA_STATUS_OK)
                viol("use-refused:import", "importing an exported key gave %s", status_name(st));
            SA(s, key_release, k2);
            SA(s, key_release, k.h);
        }
    }
}
void container(Sess& s, Rng& r) {
    sa_key k = INVALID_HANDLE;
    if (r.coin()) {
        TypeJ t = typej_rand(r);
        sa_key kc = must_sym(s, t.kcipher), km = must_sym(s, t.khmac);
        Bytes c = typej_pack(jtext(typej_fields(t, &r), &r), t.khmac);
        GBuf g(c);
        sa_import_parameters_typej p = {kc, km};
        sa_status st = SA(s, key_import, &k, SA_KEY_FORMAT_TYPEJ, g.p, g.n, &p);
        if (st != SA_STATUS_OK)
            viol("use-refused:typej", "a TypeJ container was refused with %s", status_name(st));
        SA(s, key_release, k);
        SA(s, key_release, kc);
        SA(s, key_release, km);
    } else {
        Soc c = soc_rand(r, true);
        Bytes tag, sealed = soc_seal(c, &tag);
        Bytes in = soc_pack(jtext(soc_fields(c, sealed, &r), &r), tag);
        GBuf g(in);
        if (r.chance(40) && c.has_params) {
            WidevineOemProvisioning wv;
            PlayReadyProvisioning pr;
            NetflixProvisioning nf;
            uint8_t cert[32] = {1};
            sa_status st;
            switch (r.below(3)) {
                case 0:
                    memset(&wv, 0, sizeof wv);
                    wv = {(unsigned) g.n, g.p, 32, cert};
                    st = sa_key_provision_ta(WIDEVINE_OEM_PROVISIONING, &wv, sizeof wv, &c.params);
                    break;
                case 1:
                    memset(&pr, 0, sizeof pr);
                    pr = {PLAYREADY_MODEL_3K, (unsigned) g.n, g.p, 32, cert};
                    st = sa_key_provision_ta(PLAYREADY_MODEL_PROVISIONING, &pr, sizeof pr, &c.params);
                    break;
                default:
                    memset(&nf, 0, sizeof nf);
                    nf = {(unsigned) g.n, g.p, (unsigned) g.n, g.p, 32, cert};
                    st = sa_key_provision_ta(NETFLIX_PROVISIONING, &nf, sizeof nf, &c.params);
            }
            cov(strf("provision:%s", status_name(st)));
            return;
        }
        sa_status st = SA(s, key_import, &k, SA_KEY_FORMAT_SOC, g.p, g.n, c.has_params ? &c.params : nullptr);
        if (st != SA_STATUS_OK)
            viol("use-refused:soc", "a SoC container was refused with %s", status_name(st));
        SA(s, key_release, k);
    }
}
void drive(Sess& s, Rng& r) {
    switch (r.below(10)) {
        case 0: misc(s, r); break;
        case 1: container(s, r); break;
        case 2: case 3: case 4: {
            auto o = obj_create(s, r, (OT) r.below(4));
            Finally f{[&] { o->release(s); }};
            for (size_t n = r.range(1, 3); n--;)
                o->use(s, r);
            break;
        }
        case 5: {
            World w(s, r);
            g_target = (int64_t) r.below(4);
            const FailCall& f = r.pick(fail_calls());
            if (f.run(w, r) == SA_STATUS_OK)
                viol(strf("accepted:%s", f.name.c_str()), "the invalid call %s was accepted", f.name.c_str());
            w.use_all(r);
            break;
        }
        default: {
            KInfo k = make_key(s, r, (KK) r.below(K_COUNT), rights_all());
            Finally f{[&] { SA(s, key_release, k.h); }};
            if (k.kind == K_DH)
                key_pub(s, k.h, &k.dh_pub);
            const Op& o = *r.pick(ops_for(k.kind));
            if (r.chance(70))
                g_target = (int64_t) r.below(5);
            OpEnv e{s, r, k, k.h};
            e.check_leak = false;
            e.svp_out = o.svp_able && r.coin();
            sa_status st = run_op(o, e);
            if (st != SA_STATUS_OK)
                viol(strf("use-refused:%s", o.name.c_str()), "%s gave %s", o.name.c_str(), status_name(st));
        }
    }
}
// Provisioning hands the TA addresses to read: in a process of its own
void provision_addresses() {
    pid_t pid = fork();
    if (pid == 0) {
        alarm(20);
        WidevineOemProvisioning wv;
        memset(&wv, 0, sizeof wv);
        wv.oemDevicePrivateKeyLength = 64;
        wv.oemDevicePrivateKey = (void*) 0x1000;
        Cmd c;
        c.id = SA_KEY_PROVISION_TA;
        c.t[0] = 7;
        c.t[1] = c.t[3] = 5;
        c.has[0] = c.has[1] = c.has[3] = true;
        sa_key_provision_ta_s ps;
        memset(&ps, 0, sizeof ps);
        ps.api_version = API_VERSION;
        ps.key = INVALID_HANDLE;
        ps.key_format = SA_KEY_FORMAT_PROVISION_TA;
        sa_key_type_ta ty = WIDEVINE_OEM_PROVISIONING;
        c.b[0] = Bytes((uint8_t*) &ps, (uint8_t*) (&ps + 1));
        c.b[1] = Bytes((uint8_t*) &wv, (uint8_t*) (&wv + 1));
        c.b[3] = Bytes((uint8_t*) &ty, (uint8_t*) (&ty + 1));
        fclose(stderr);
        send(c, nullptr, true);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        viol("provision-addresses", "the TA reads from any address stated inside the provisioning object (params[1] of SA_KEY_PROVISION_TA): it crashed");
}
void init() {
    Rng r(7);
    ops_warmup(r);
}
void one(Rng& r, uint64_t index) {
    uint64_t before = ta_live_blocks();
    w_regions_on = true;
    w_caller = UUID_REE;
    w_caller_on = true;
    g_ctx = nullptr;
    sa_status st = ta_open_session_handler(&g_ctx);
    if (st != SA_STATUS_OK)
        viol("session-open-failed", "opening a session gave %s", status_name(st));
    g_r = &r;
    g_armed = false;
    g_keep.clear();
    g_pool.clear();
    g_sent = 0;
    w_invoke = intercept;
    g_hold_buffers = true;
    std::vector<std::unique_ptr<Obj>> mine, others;
    std::unique_ptr<Sess> os;
    struct Closer {
        ~Closer() {
            w_invoke = nullptr;
            g_armed = false;
            w_caller = UUID_REE;
            w_caller_on = true;
            if (g_ctx)
                ta_close_session_handler(g_ctx);
            g_ctx = nullptr;
            release_held_buffers();
        }
    } closer;
    {
        Sess s(false);
        if (index % 500 == 3)
            provision_addresses();
        // the first slot of each kind belongs to nobody, so that a zero is no handle of ours
        for (OT t : {O_KEY, O_CIPHER, O_MAC, O_SVP}) {
            auto o = obj_create(s, r, t);
            others.push_back(std::move(o));
        }
        for (OT t : {O_KEY, O_CIPHER, O_MAC, O_SVP}) {
            auto o = obj_create(s, r, t);
            g_keep.push_back(o->h);
            mine.push_back(std::move(o));
        }
        // keys behind contexts have handles too: none below 16 may be touched
        for (uint64_t h = 1; h < 8; h++)
            g_keep.push_back(h);
        os.reset(new Sess(true, mk_uuid(3)));
        for (OT t : {O_KEY, O_CIPHER, O_MAC})
            others.push_back(obj_create(*os, r, t));
        size_t rounds = r.range(4, 10);
        for (size_t i = 0; i < rounds; i++) {
            g_target = (int64_t) r.below(r.coin() ? 4 : 14);
            g_armed = true;
            try {
                drive(s, r);
            } catch (CaseAbort&) {
                bool muted = g_muted;
                g_muted = false;
                g_armed = false;
                if (!muted)
                    throw;
            }
            g_muted = false;
            g_armed = false;
        }
        for (auto& o : mine) {
            o->verify(s, r);
            o->use(s, r);
            o->finish(s, r);
        }
        for (size_t i = 4; i < others.size(); i++) {
            others[i]->verify(*os, r);
            others[i]->use(*os, r);
        }
        for (auto& o : mine)
            if (o->release(s) != SA_STATUS_OK)
                viol("release-refused", "an object could not be released at the end");
        for (size_t i = 0; i < others.size(); i++)
            quietly([&] {
                g_muted = i < 4;   // those may have been used by an altered command
                Finally f{[] { g_muted = false; }};
                others[i]->release(i < 4 ? s : *os);
            });
        os->close();
    }
    w_invoke = nullptr;
    w_caller = UUID_REE;
    w_caller_on = true;
    ta_close_session_handler(g_ctx);
    g_ctx = nullptr;
    if (ta_live_blocks() != before) {
        ta_live_dump();
        viol("memory-held", "TA memory blocks before: %" PRIu64 ", after the session ended: %" PRIu64, before, ta_live_blocks());
    }
    cov("altered-commands", g_sent);
    if (index % 300 == 1)
        sample(strf("case seed %" PRIu64 ": %zu altered commands", g_case_seed, g_sent));
}
void finish() {
    cov("altered:accepted", g_accepted);
    cov("altered:refused", g_refused);
    cov("memory-changes", g_pokes);
}
}   // namespace
Harness harness() {
    return {"commands the client library sends during valid and invalid use, altered (ids, types, sizes, contents, handles, enumerators, lengths, parameters swapped, "
            "dropped and added, memory that changes at allocations, locks and comparisons or constantly), each sent to a session with live objects. Distinct: command, "
            "defect, status, parameter types and sizes",
            init, one, finish};
}
