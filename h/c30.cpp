// C30: every call on the client library reaches the TA with the same arguments and brings back the same answer; and each is
// preceded by the same call with one argument spoilt, which must be refused and change nothing.
// The client library's functions and the TA's are wrapped by the linker, in this program only.
#include "acts.hpp"
namespace {
typedef std::vector<std::pair<std::string, std::string>> Fields;
std::string num(uint64_t v) { return strf("%" PRIu64, v); }
std::string mem(const void* p, size_t n) { return n == 0 ? "empty" : !p ? strf("NULL+%zu", n) : strf("%zu:%016" PRIx64, n, hash_bytes(p, n)); }
std::string rstr(const sa_rights* r) { return r ? mem(r, sizeof *r) : "NULL"; }
const char* nul(const void* p) { return p ? "set" : "NULL"; }

// ---------------------------------------------------------------- visitors over the arguments of a call
// What the arguments say (in), and what the call has answered so far in them (out)
struct Dump {
    Fields in, out;
    std::string pre;
    std::vector<size_t> base;   // offsets of clear buffers before the call
    bool entry = true;
    size_t nbuf = 0;
    void put(Fields& f, const char* n, std::string v) { f.push_back({pre + n, std::move(v)}); }
    void outh(const char* n, sa_handle*& p) {
        put(in, n, nul(p));
        if (p)
            put(out, n, num(*p));
    }
    template <class T> void outval(const char* n, T*& p) {
        put(in, n, nul(p));
        if (p)
            put(out, n, mem(p, sizeof *p));
    }
    void outhdr(const char* n, sa_header*& h) {
        put(in, n, nul(h));
        if (!h)
            return;
        put(out, "magic", mem(h->magic, sizeof h->magic));
        put(out, "rights", rstr(&h->rights));
        put(out, "type", num(h->type));
        put(out, "size", num(h->size));
        if (h->type == SA_KEY_TYPE_EC)
            put(out, "curve", num((unsigned) h->type_parameters.curve));
        if (h->type == SA_KEY_TYPE_DH && entry == false) {
            auto& d = h->type_parameters.dh_parameters;
            put(out, "p", mem(d.p, std::min<size_t>(d.p_length, sizeof d.p)));
            put(out, "g", mem(d.g, std::min<size_t>(d.g_length, sizeof d.g)));
        }
    }
    size_t room = 0;
    template <class P> void outbuf(const char* n, P*& p, size_t*& len) {
        put(in, n, p ? strf("set[%zu]", len ? *len : 0) : "NULL");
        put(in, "length", nul(len));
        if (!len)
            return;
        put(out, "length", num(*len));
        if (entry)
            room = *len;
        if (p)
            put(out, n, mem(p, entry ? *len : std::min(*len, room)));
    }
    template <class P> void outfix(const char* n, P*& p, size_t& len) {
        put(in, n, strf("%s[%zu]", nul(p), len));
        if (p)
            put(out, n, mem(p, len));
    }
    void size(const char* n, size_t*& p, bool) {
        put(in, n, p ? num(entry ? *p : 0) : "NULL");
        if (p)
            put(out, n, num(*p));
    }
    template <class P> void inbuf(const char* n, P*& p, size_t& len, int) { put(in, n, mem(p, len)); }
    void params(const char* n, void*& p, size_t len) { put(in, n, strf("%zu", len) + mem(p, std::min(len, sizeof(sa_import_parameters_soc)))); }
    template <class E> void en(const char* n, E& e, int) { put(in, n, num((uint64_t) (uint32_t) e)); }
    template <class E> void en_late(const char* n, E& e, int c) { en(n, e, c); }
    void flag(const char* n, bool& b) { put(in, n, b ? "1" : "0"); }
    template <class H> void handle(const char* n, H& h) { put(in, n, num(h)); }
    template <class N> void n(const char* nm, N& v, bool) { put(in, nm, num(v)); }
    void address(const char* n, void*& p) { put(in, n, p ? num((uint64_t) p) : "NULL"); }
    void rights(const char* n, const sa_rights*& r) { put(in, n, rstr(r)); }
    void rightsw(const char* n, sa_rights*& r) { put(in, n, rstr(r)); }
    template <class T> T* sub(const char* n, void*& p, T*) {
        put(in, n, nul(p));
        return (T*) p;
    }
    template <class T> T* sub(const char* n, const void*& p, T* t) { return sub(n, (void*&) p, t); }
    void buffer(const char* n, sa_buffer*& b, bool, bool writes) {
        put(in, n, nul(b));
        if (!b)
            return;
        size_t i = nbuf++;
        put(in, "type", num((uint32_t) b->buffer_type));
        if (b->buffer_type == SA_BUFFER_TYPE_CLEAR) {
            auto& c = b->context.clear;
            if (i == base.size())
                base.push_back(c.offset);
            size_t from = base[i];
            bool sane = c.buffer && from <= c.length;
            put(in, "bytes", writes ? strf("%s[%zd]", nul(c.buffer), (ssize_t) (c.length - from)) :
                             sane ? mem((uint8_t*) c.buffer + from, c.length - from) : strf("%s,%zd", nul(c.buffer), (ssize_t) (c.length - from)));
            put(out, "advance", num(c.offset - from));
            if (writes && sane)
                put(out, "bytes", mem((uint8_t*) c.buffer + from, c.length - from));
        } else {
            if (i == base.size())
                base.push_back(b->context.svp.offset);
            put(in, "svp", num(b->context.svp.buffer));
            put(in, "offset", num(base[i]));
            put(out, "offset", num(b->context.svp.offset));
        }
    }
    template <class T> void array(const char* n, T*& p, size_t& count, int) { put(in, n, count < 1000000 ? mem(p, count * sizeof(T)) : num(count)); }
};

// Spoils argument number `site` (copying what it has to change first)
struct Spoil {
    int64_t at = -1, i = 0;
    std::string what;
    Rng q{1};
    std::vector<std::unique_ptr<GBuf>> keep;
    bool hit(const std::string& w) {
        if (i++ != at)
            return false;
        what = w;
        return true;
    }
    template <class T> T* own(const void* p, size_t n = 1) {
        keep.push_back(std::make_unique<GBuf>(n * sizeof(T)));
        memcpy(keep.back()->p, p, n * sizeof(T));
        return (T*) keep.back()->p;
    }
    template <class P> void null(const char* n, P*& p) {
        if (hit(strf("%s=NULL", n)))
            p = nullptr;
    }
    void outh(const char* n, sa_handle*& p) { null(n, p); }
    template <class T> void outval(const char* n, T*& p) { null(n, p); }
    void outhdr(const char* n, sa_header*& p) { null(n, p); }
    template <class P> void outbuf(const char*, P*&, size_t*& len) { null("out_length", len); }
    template <class P> void outfix(const char* n, P*& p, size_t&) { null(n, p); }
    void size(const char* n, size_t*& p, bool wide) {
        null(n, p);
        if (p && wide)
            for (size_t add : {(size_t) 1 << 32, (size_t) 1 << 63, (size_t) -1 - *p})
                if (hit(strf("%s+%zx", n, add))) {
                    p = own<size_t>(p);
                    *p += add;
                }
    }
    enum { OPT = 0, REQ = 1, FIX = 2, SHORT = 4 };
    static bool fits(size_t l) { return l == 4 || l == 8 || l == 12 || l == 16 || l == 20 || l == 32 || l == 48 || l == 64; }
    template <class P> void inbuf(const char* n, P*& p, size_t& len, int how) {
        if ((len > 0 || how & REQ) && hit(strf("%s=NULL", n)))
            p = nullptr;
        if (how & FIX)
            for (size_t l : {(size_t) 0, len - 1, len + 1, len + 16, len + 256, len + 65536})
                if (l < 1 << 20 && !fits(l) && !(how & SHORT && l && l < 17) && hit(strf("%s:length %zd", n, (ssize_t) (l - len)))) {
                    keep.push_back(std::make_unique<GBuf>(l));
                    if (p)
                        memcpy(keep.back()->p, p, std::min(len, l));
                    p = (P*) keep.back()->p;
                    len = l;
                }
    }
    void params(const char* n, void*& p, size_t len) {   // says its own length
        len = std::min(len, sizeof(sa_import_parameters_soc));
        for (size_t l : {(size_t) 0, (size_t) 1, len - 1, len / 2})
            if (l != len && hit(strf("%s:length %zu", n, l))) {
                keep.push_back(std::make_unique<GBuf>(std::max<size_t>(l, 2)));
                memcpy(keep.back()->p, p, l);
                p = keep.back()->p;
                ((uint8_t*) p)[0] = (uint8_t) (l >> 8);
                ((uint8_t*) p)[1] = (uint8_t) l;
            }
    }
    template <class E> void en(const char* n, E& e, int count) {
        uint32_t v = (uint32_t) e;
        for (uint32_t x : {(uint32_t) count, v + 256, v + 0x10000, v + 0x1000000, v | 0x80000000u, 0xffffffffu, 0x7fffffffu})
            if (hit(strf("%s=%x", n, x)))
                e = (E) x;
    }
    template <class E> void en_late(const char*, E&, int) {}
    void flag(const char*, bool&) {}
    template <class H> void handle(const char* n, H& h) {
        H v = h;
        for (H x : {(H) INVALID_HANDLE, (H) (v + 256), (H) (v + 0x10000), (H) (v + ((H) 1 << 32)), (H) (v | (H) 1 << 63)})
            if (hit(strf("%s=%lx", n, (unsigned long) x)))
                h = x;
    }
    template <class N> void n(const char* nm, N& v, bool wide) {
        if (wide && sizeof v > 4)
            for (uint64_t add : {(uint64_t) 1 << 32, (uint64_t) 1 << 63, (uint64_t) 0x10000 << 32, ~(uint64_t) 0 - v})
                if (hit(strf("%s+%" PRIx64, nm, add)))
                    v = (N) (v + add);
    }
    void address(const char* n, void*& p) { null(n, p); }
    void rights(const char* n, const sa_rights*& r) { null(n, r); }
    void rightsw(const char* n, sa_rights*& r) { null(n, r); }
    template <class T> T* sub(const char* n, void*& p, T*) {
        null(n, p);
        if (p)
            p = own<T>(p);
        return (T*) p;
    }
    template <class T> T* sub(const char* n, const void*& p, T* t) { return sub(n, (void*&) p, t); }
    void buffer(const char* n, sa_buffer*& b, bool req, bool) {
        if (req)
            null(n, b);
        if (!b)
            return;
        b = own<sa_buffer>(b);
        en("buffer_type", b->buffer_type, 2);
        if (b->buffer_type == SA_BUFFER_TYPE_CLEAR) {
            null("buffer", b->context.clear.buffer);
            size_t l = b->context.clear.length;
            for (size_t o : {l + 1, l + 4096, (size_t) 1 << 63, (size_t) -1, (size_t) -16})
                if (hit(strf("%s.offset=%zx", n, o)))
                    b->context.clear.offset = o;
        } else if (b->buffer_type == SA_BUFFER_TYPE_SVP) {
            handle("svp", b->context.svp.buffer);
            for (size_t o : {(size_t) 1 << 32, (size_t) 1 << 63, (size_t) -1, (size_t) -16})
                if (hit(strf("%s.svp_offset=%zx", n, o)))
                    b->context.svp.offset = o;
        }
    }
    template <class T> void array(const char* n, T*& p, size_t& count, int) {
        null(n, p);
        for (size_t c : {(size_t) 1 << 60, ((size_t) 1 << 60) + 1, (size_t) -1 / sizeof(T) + 2, ((size_t) 1 << 61) + 1, (size_t) -1})
            if (p && hit(strf("%s:count %zx", n, c)))
                count = c;
    }
};

// Another room for the answer of a call that can be asked again: only its size asked, more room, less room
struct Vary : Dump {
    int how = 0;
    bool done = false;
    std::vector<std::unique_ptr<GBuf>> keep;
    size_t len = 0;
    template <class P> void outbuf(const char*, P*& p, size_t*& n) {
        if (!n || *n > 65536 || (!p && how != 1))
            return;
        done = true;
        len = how == 0 ? g_len(*n) : how == 1 ? *n + 1 + (*n & 31) : *n ? *n - 1 : 0;
        if (how == 0)
            p = nullptr;
        else {
            keep.push_back(std::make_unique<GBuf>(len));
            p = (P*) keep.back()->p;
        }
        n = &len;
    }
    static size_t g_len(size_t n) { return n ^ 5; }
};

// ---------------------------------------------------------------- what each function's arguments are
#define D(name) struct D_##name { template <class V> static void go
D(get_version) (V& v, sa_version*& p) { v.outval("version", p); } };
D(get_name) (V& v, char*& p, size_t*& n) { v.outbuf("name", p, n); } };
D(get_device_id) (V& v, uint64_t*& p) { v.outval("id", p); } };
D(get_ta_uuid) (V& v, sa_uuid*& p) { v.outval("uuid", p); } };
D(crypto_random) (V& v, void*& p, size_t& n) { v.outfix("out", p, n); } };
template <class V> void cparams(V& v, sa_cipher_algorithm a, void*& p, bool unwrap) {
    switch (a) {
        case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR:
            if (auto* x = v.sub("parameters", p, (sa_cipher_parameters_aes_cbc*) nullptr))
                v.inbuf("iv", x->iv, x->iv_length, 3);
            break;
        case SA_CIPHER_ALGORITHM_AES_GCM:
            if (unwrap) {
                if (auto* x = v.sub("parameters", p, (sa_unwrap_parameters_aes_gcm*) nullptr)) {
                    v.inbuf("iv", x->iv, x->iv_length, 3);
                    v.inbuf("aad", x->aad, x->aad_length, 0);
                    v.inbuf("tag", x->tag, x->tag_length, 7);
                }
            } else if (auto* x = v.sub("parameters", p, (sa_cipher_parameters_aes_gcm*) nullptr)) {
                v.inbuf("iv", x->iv, x->iv_length, 3);
                v.inbuf("aad", x->aad, x->aad_length, 0);
            }
            break;
        case SA_CIPHER_ALGORITHM_CHACHA20:
            if (auto* x = v.sub("parameters", p, (sa_cipher_parameters_chacha20*) nullptr)) {
                v.inbuf("counter", x->counter, x->counter_length, 3);
                v.inbuf("nonce", x->nonce, x->nonce_length, 3);
            }
            break;
        case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
            if (unwrap) {
                if (auto* x = v.sub("parameters", p, (sa_unwrap_parameters_chacha20_poly1305*) nullptr)) {
                    v.inbuf("nonce", x->nonce, x->nonce_length, 3);
                    v.inbuf("aad", x->aad, x->aad_length, 0);
                    v.inbuf("tag", x->tag, x->tag_length, 3);
                }
            } else if (auto* x = v.sub("parameters", p, (sa_cipher_parameters_chacha20_poly1305*) nullptr)) {
                v.inbuf("nonce", x->nonce, x->nonce_length, 3);
                v.inbuf("aad", x->aad, x->aad_length, 0);
            }
            break;
        case SA_CIPHER_ALGORITHM_RSA_OAEP:
            if (auto* x = v.sub("parameters", p, (sa_cipher_parameters_rsa_oaep*) nullptr)) {
                unwrap ? v.en("digest", x->digest_algorithm, 4) : v.en_late("digest", x->digest_algorithm, 4);
                unwrap ? v.en("mgf1", x->mgf1_digest_algorithm, 4) : v.en_late("mgf1", x->mgf1_digest_algorithm, 4);
                v.inbuf("label", x->label, x->label_length, 0);
            }
            break;
        case SA_CIPHER_ALGORITHM_EC_ELGAMAL:
            if (unwrap)
                if (auto* x = v.sub("parameters", p, (sa_unwrap_parameters_ec_elgamal*) nullptr)) {
                    v.n("offset", x->offset, true);
                    v.n("key_length", x->key_length, true);
                }
            break;
        default: break;
    }
}
D(crypto_cipher_init) (V& v, sa_crypto_cipher_context*& c, sa_cipher_algorithm& a, sa_cipher_mode& m, sa_key& k, void*& p) {
    v.outh("context", c);
    v.en("algorithm", a, 11);
    v.en("mode", m, 2);
    v.handle("key", k);
    cparams(v, a, p, false);
} };
D(crypto_cipher_update_iv) (V& v, sa_crypto_cipher_context& c, const void*& iv, size_t& n) { v.handle("context", c); v.inbuf("iv", iv, n, 3); } };
D(crypto_cipher_process) (V& v, sa_buffer*& o, sa_crypto_cipher_context& c, sa_buffer*& i, size_t*& n) {
    bool query = !o;
    v.buffer("out", o, false, true);
    v.handle("context", c);
    v.buffer("in", i, true, false);
    v.size("bytes_to_process", n, !query);
} };
D(crypto_cipher_process_last) (V& v, sa_buffer*& o, sa_crypto_cipher_context& c, sa_buffer*& i, size_t*& n, void*& p) {
    bool query = !o;
    v.buffer("out", o, false, true);
    v.handle("context", c);
    v.buffer("in", i, true, false);
    v.size("bytes_to_process", n, !query);
    if (p)
        if (auto* x = v.sub("parameters", p, (sa_cipher_end_parameters_aes_gcm*) nullptr)) {
            v.outfix("tag", x->tag, x->tag_length);
            if (!query)
                v.inbuf("tag", x->tag, x->tag_length, 0);
        }
} };
D(crypto_cipher_release) (V& v, sa_crypto_cipher_context& c) { v.handle("context", c); } };
D(crypto_mac_init) (V& v, sa_crypto_mac_context*& c, sa_mac_algorithm& a, sa_key& k, void*& p) {
    v.outh("context", c);
    v.en("algorithm", a, 2);
    v.handle("key", k);
    if (a == SA_MAC_ALGORITHM_HMAC)
        if (auto* x = v.sub("parameters", p, (sa_mac_parameters_hmac*) nullptr))
            v.en("digest", x->digest_algorithm, 4);
} };
D(crypto_mac_process) (V& v, sa_crypto_mac_context& c, const void*& p, size_t& n) { v.handle("context", c); v.inbuf("in", p, n, 0); } };
D(crypto_mac_process_key) (V& v, sa_crypto_mac_context& c, sa_key& k) { v.handle("context", c); v.handle("key", k); } };
D(crypto_mac_compute) (V& v, void*& o, size_t*& n, sa_crypto_mac_context& c) { v.outbuf("out", o, n); v.handle("context", c); } };
D(crypto_mac_release) (V& v, sa_crypto_mac_context& c) { v.handle("context", c); } };
D(crypto_sign) (V& v, void*& o, size_t*& n, sa_signature_algorithm& a, sa_key& k, const void*& i, size_t& il, const void*& p) {
    v.outbuf("out", o, n);
    v.en("algorithm", a, 4);
    v.handle("key", k);
    v.inbuf("in", i, il, 0);
    if (a == SA_SIGNATURE_ALGORITHM_RSA_PSS) {
        if (auto* x = v.sub("parameters", p, (sa_sign_parameters_rsa_pss*) nullptr)) {
            v.en("digest", x->digest_algorithm, 4);
            v.en("mgf1", x->mgf1_digest_algorithm, 4);
            v.flag("precomputed", x->precomputed_digest);
            v.n("salt_length", x->salt_length, true);
        }
    } else if (a == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 || a == SA_SIGNATURE_ALGORITHM_ECDSA)
        if (auto* x = v.sub("parameters", p, (sa_sign_parameters_ecdsa*) nullptr)) {
            v.en("digest", x->digest_algorithm, 4);
            v.flag("precomputed", x->precomputed_digest);
        }
} };
D(key_generate) (V& v, sa_key*& k, const sa_rights*& r, sa_key_type& t, void*& p) {
    v.outh("key", k);
    v.rights("rights", r);
    v.en("type", t, 4);
    switch (t) {
        case SA_KEY_TYPE_SYMMETRIC: case SA_KEY_TYPE_RSA:
            if (auto* x = v.sub("parameters", p, (sa_generate_parameters_symmetric*) nullptr))
                v.n("length", x->key_length, true);
            break;
        case SA_KEY_TYPE_EC:
            if (auto* x = v.sub("parameters", p, (sa_generate_parameters_ec*) nullptr))
                v.en("curve", x->curve, 9);
            break;
        case SA_KEY_TYPE_DH:
            if (auto* x = v.sub("parameters", p, (sa_generate_parameters_dh*) nullptr)) {
                v.inbuf("p", x->p, x->p_length, 1);
                v.inbuf("g", x->g, x->g_length, 1);
            }
            break;
        default: break;
    }
} };
D(key_export) (V& v, void*& o, size_t*& n, const void*& m, size_t& ml, sa_key& k) { v.outbuf("out", o, n); v.inbuf("mixin", m, ml, ml ? 2 : 0); v.handle("key", k); } };
D(key_import) (V& v, sa_key*& k, sa_key_format& f, const void*& i, size_t& n, void*& p) {
    v.outh("key", k);
    v.en("format", f, 7);
    v.inbuf("in", i, n, 0);
    switch (f) {
        case SA_KEY_FORMAT_SYMMETRIC_BYTES: case SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO:
            if (auto* x = v.sub("parameters", p, (sa_import_parameters_symmetric*) nullptr))
                v.rights("rights", x->rights);
            break;
        case SA_KEY_FORMAT_EC_PRIVATE_BYTES:
            if (auto* x = v.sub("parameters", p, (sa_import_parameters_ec_private_bytes*) nullptr)) {
                v.rights("rights", x->rights);
                v.en("curve", x->curve, 9);
            }
            break;
        case SA_KEY_FORMAT_TYPEJ:
            if (auto* x = v.sub("parameters", p, (sa_import_parameters_typej*) nullptr)) {
                v.handle("kcipher", x->kcipher);
                v.handle("khmac", x->khmac);
            }
            break;
        case SA_KEY_FORMAT_SOC:
            if (p) {
                size_t l = (size_t) (((uint8_t*) p)[0] << 8) + ((uint8_t*) p)[1];
                v.params("parameters", p, l);
            }
            break;
        default: break;
    }
} };
D(key_unwrap) (V& v, sa_key*& k, const sa_rights*& r, sa_key_type& t, void*& tp, sa_cipher_algorithm& a, void*& ap, sa_key& w, const void*& i, size_t& n) {
    v.outh("key", k);
    v.rights("rights", r);
    v.en("type", t, 4);
    if (t == SA_KEY_TYPE_EC)
        if (auto* x = v.sub("type_parameters", tp, (sa_unwrap_type_parameters_ec*) nullptr))
            v.en("curve", x->curve, 9);
    v.en("algorithm", a, 11);
    cparams(v, a, ap, true);
    v.handle("wrapping_key", w);
    v.inbuf("in", i, n, 0);
} };
D(key_get_public) (V& v, void*& o, size_t*& n, sa_key& k) { v.outbuf("out", o, n); v.handle("key", k); } };
D(key_derive) (V& v, sa_key*& k, const sa_rights*& r, sa_kdf_algorithm& a, void*& p) {
    v.outh("key", k);
    v.rights("rights", r);
    v.en("algorithm", a, 7);
    switch (a) {
        case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER:
            if (auto* x = v.sub("parameters", p, (sa_kdf_parameters_root_key_ladder*) nullptr)) {
                v.inbuf("c1", x->c1, x->c1_length, 3);
                v.inbuf("c2", x->c2, x->c2_length, 3);
                v.inbuf("c3", x->c3, x->c3_length, 3);
                v.inbuf("c4", x->c4, x->c4_length, 3);
            }
            break;
        case SA_KDF_ALGORITHM_HKDF:
            if (auto* x = v.sub("parameters", p, (sa_kdf_parameters_hkdf*) nullptr)) {
                v.n("length", x->key_length, true);
                v.en("digest", x->digest_algorithm, 4);
                v.handle("parent", x->parent);
                v.inbuf("salt", x->salt, x->salt_length, 0);
                v.inbuf("info", x->info, x->info_length, 0);
            }
            break;
        case SA_KDF_ALGORITHM_CONCAT: case SA_KDF_ALGORITHM_ANSI_X963:
            if (auto* x = v.sub("parameters", p, (sa_kdf_parameters_concat*) nullptr)) {
                v.n("length", x->key_length, true);
                v.en("digest", x->digest_algorithm, 4);
                v.handle("parent", x->parent);
                v.inbuf("info", x->info, x->info_length, 0);
            }
            break;
        case SA_KDF_ALGORITHM_CMAC:
            if (auto* x = v.sub("parameters", p, (sa_kdf_parameters_cmac*) nullptr)) {
                v.n("length", x->key_length, true);
                v.handle("parent", x->parent);
                v.inbuf("other_data", x->other_data, x->other_data_length, 0);
                v.n("counter", x->counter, false);
            }
            break;
        case SA_KDF_ALGORITHM_NETFLIX:
            if (auto* x = v.sub("parameters", p, (sa_kdf_parameters_netflix*) nullptr)) {
                v.handle("kenc", x->kenc);
                v.handle("khmac", x->khmac);
            }
            break;
        default: break;
    }
} };
D(key_exchange) (V& v, sa_key*& k, const sa_rights*& r, sa_key_exchange_algorithm& a, sa_key& priv, const void*& o, size_t& n, void*& p) {
    v.outh("key", k);
    v.rights("rights", r);
    v.en("algorithm", a, 3);
    v.handle("private_key", priv);
    v.inbuf("other_public", o, n, 1);
    if (a == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH)
        if (auto* x = v.sub("parameters", p, (sa_key_exchange_parameters_netflix_authenticated_dh*) nullptr)) {
            v.handle("in_kw", x->in_kw);
            v.outh("out_ke", x->out_ke);
            v.rightsw("rights_ke", x->rights_ke);
            v.outh("out_kh", x->out_kh);
            v.rightsw("rights_kh", x->rights_kh);
        }
} };
D(key_release) (V& v, sa_key& k) { v.handle("key", k); } };
D(key_header) (V& v, sa_header*& h, sa_key& k) { v.outhdr("header", h); v.handle("key", k); } };
D(key_digest) (V& v, void*& o, size_t*& n, sa_key& k, sa_digest_algorithm& d) { v.outbuf("out", o, n); v.handle("key", k); v.en("digest", d, 4); } };
D(svp_supported) (V&) {} };
D(svp_buffer_create) (V& v, sa_svp_buffer*& b, void*& m, size_t& n) {
    v.outh("svp_buffer", b);
    v.address("memory", m);
    v.n("size", n, false);
} };
D(svp_buffer_release) (V& v, void**& m, size_t*& n, sa_svp_buffer& b) { v.outval("memory", m); v.outval("size", n); v.handle("svp_buffer", b); } };
D(svp_buffer_write) (V& v, sa_svp_buffer& b, const void*& i, size_t& n, sa_svp_offset*& o, size_t& c) {
    v.handle("out", b);
    v.inbuf("in", i, n, 1);
    v.array("offsets", o, c, 0);
} };
D(svp_buffer_copy) (V& v, sa_svp_buffer& b, sa_svp_buffer& i, sa_svp_offset*& o, size_t& c) {
    v.handle("out", b);
    v.handle("in", i);
    v.array("offsets", o, c, 0);
} };
D(svp_key_check) (V& v, sa_key& k, sa_buffer*& i, size_t& n, const void*& e, size_t& el) {
    v.handle("key", k);
    v.buffer("in", i, true, false);
    v.n("bytes_to_process", n, true);
    v.inbuf("expected", e, el, 1);
} };
D(svp_buffer_check) (V& v, sa_svp_buffer& b, size_t& o, size_t& n, sa_digest_algorithm& d, const void*& h, size_t& hl) {
    v.handle("svp_buffer", b);
    v.n("offset", o, true);
    v.n("length", n, true);
    v.en("digest", d, 4);
    v.inbuf("hash", h, hl, 3);
} };
template <class V> void one_sample(V& v, sa_sample& s) {
    v.inbuf("iv", s.iv, s.iv_length, 3);
    v.n("crypt_byte_block", s.crypt_byte_block, false);
    v.n("skip_byte_block", s.skip_byte_block, false);
    v.array("subsamples", s.subsample_lengths, s.subsample_count, 0);
    v.handle("context", s.context);
    v.buffer("out", s.out, true, true);
    v.buffer("in", s.in, true, false);
}
D(process_common_encryption) (V& v, size_t& n, sa_sample*& s) {
    if constexpr (std::is_same<V, Spoil>::value) {
        v.null("samples", s);
        if (s && n) {
            s = v.template own<sa_sample>(s, n);
            if (s[0].subsample_lengths && s[0].subsample_count)
                s[0].subsample_lengths = v.template own<sa_subsample_length>(s[0].subsample_lengths, s[0].subsample_count);
            one_sample(v, s[0]);
        }
        if (v.hit("samples_length=0"))
            n = 0;
    } else {
        v.put(v.in, "samples", nul(s));
        for (size_t i = 0; s && i < n && i < 1000; i++)
            one_sample(v, s[i]);
    }
} };

// ---------------------------------------------------------------- the call being watched
struct TaCall {
    const char* fn;
    Fields in, out;
    sa_status st;
};
struct Call {
    const char* fn;
    std::vector<TaCall> ta;
};
Call* g_call;
ta_client g_slot;
bool g_judge, g_spoil, g_varied;
uint64_t g_spoilt, g_same, g_asked;
Rng g_q;

template <class Desc, class Tup> Dump dump(const Tup& a, const Dump* before) {
    Dump d;
    if (before) {
        d.entry = false;
        d.base = before->base;
        d.room = before->room;
    }
    Tup t = a;
    std::apply([&](auto&... x) { Desc::go(d, x...); }, t);
    return d;
}
std::string diff(const Fields& a, const Fields& b) {
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
        if (i >= a.size() || i >= b.size())
            return strf("%zu fields against %zu", a.size(), b.size());
        if (a[i] != b[i])
            return strf("%s %s against %s %s", a[i].first.c_str(), a[i].second.c_str(), b[i].first.c_str(), b[i].second.c_str());
    }
    return "";
}
// outputs of a refused call: as before, or a handle that says it is none
std::string changed(const Fields& before, const Fields& after) {
    Fields a = after;
    for (size_t i = 0; i < a.size() && i < before.size(); i++)
        if (a[i].second == num(INVALID_HANDLE))
            a[i] = before[i];
    return diff(before, a);
}
const char* field_of(std::string& d) {
    size_t n = d.find(' ');
    static std::string s;
    s = d.substr(0, n);
    return s.c_str();
}
// returns what was wrong with the statuses, should the call itself turn out to be good
template <class Desc, class R, class Tup> std::string spoil_calls(const char* fn, R real, const Tup& args) {
    std::string odd;
    Spoil count;
    {
        Tup t = args;
        std::apply([&](auto&... x) { Desc::go(count, x...); }, t);
    }
    if (count.i == 0)
        return odd;
    std::set<int64_t> sites;
    size_t want = g_thorough ? 8 : 3;
    while (sites.size() < want && sites.size() < (size_t) count.i)
        sites.insert((int64_t) g_q.below((uint64_t) count.i));
    for (int64_t at : sites) {
        Spoil sp;
        sp.at = at;
        Tup t = args;
        std::apply([&](auto&... x) { Desc::go(sp, x...); }, t);
        HCHECK(!sp.what.empty());
        trace("  spoilt: %s with %s", fn, sp.what.c_str());
        Fields before = dump<Desc>(t, nullptr).out;
        uint64_t live = ta_live_blocks() + client_live_blocks();
        Call c{fn, {}};
        Call* up = g_call;
        g_call = &c;
        sa_status st = std::apply(real, t);
        g_call = up;
        g_spoilt++;
        std::string kind = sp.what.substr(0, sp.what.find_first_of("=+:"));
        if (st == SA_STATUS_OK)
            viol(strf("accepted:%s:%s", fn, kind.c_str()), "%s accepted %s", fn, sp.what.c_str());
        Dump d0;
        Fields after = dump<Desc>(t, nullptr).out;
        std::string df = changed(before, after);
        if (!df.empty())
            viol(strf("changed:%s:%s", fn, kind.c_str()), "%s refused %s with %s but changed its outputs: %s", fn, sp.what.c_str(), status_name(st), df.c_str());
        if (ta_live_blocks() + client_live_blocks() != live)
            viol(strf("memory-held:%s:%s", fn, kind.c_str()), "%s refused %s with %s but left memory", fn, sp.what.c_str(), status_name(st));
        for (auto& k : sp.keep)
            if (!k->guards_ok())
                viol(strf("overwritten:%s:%s", fn, kind.c_str()), "%s wrote beyond its arguments, called with %s", fn, sp.what.c_str());
        cov(strf("spoilt:%s:%s%s:%s", fn, kind.c_str(), sp.what.find("=NULL") != std::string::npos ? "=NULL" : "", status_name(st)));
        nontrivial(hash_bytes(sp.what.data(), sp.what.size(), hash_bytes(fn, strlen(fn), (uint64_t) st)));
        if (sp.what.find("=NULL") != std::string::npos && st != SA_STATUS_NULL_PARAMETER)
            odd = strf("%s was refused with %s", sp.what.c_str(), status_name(st));
    }
    return odd;
}
bool repeats(const char* fn) {
    for (auto* f : {"get_name", "crypto_sign", "key_export", "key_get_public", "key_digest"})
        if (!strcmp(fn, f))
            return true;
    return false;
}
template <class Desc, class R, class T, class... A> sa_status client_call(const char* fn, R real, T ta, A... a) {
    std::tuple<A...> args(a...);
    if (!g_judge)
        return real(a...);
    std::string odd;
    if (g_spoil && !g_call)
        odd = spoil_calls<Desc>(fn, real, args);
    if (!g_varied && repeats(fn)) {
        Vary v;
        v.how = (int) g_q.below(4);
        std::tuple<A...> t = args;
        std::apply([&](auto&... x) { Desc::go(v, x...); }, t);
        if (v.done && v.how < 3) {
            g_varied = true;
            Finally f{[] { g_varied = false; }};
            bool sp = g_spoil;
            g_spoil = false;
            sa_status st = std::apply([&](auto... x) { return client_call<Desc>(fn, real, ta, x...); }, t);
            g_spoil = sp;
            for (auto& k : v.keep)
                if (!k->guards_ok())
                    viol(strf("overwritten:%s:room", fn), "%s wrote beyond the room it was given", fn);
            static const char* const hows[] = {"query", "more", "less"};
            cov(strf("room:%s:%s:%s", fn, hows[v.how], status_name(st)));
        }
    }
    Dump before = dump<Desc>(args, nullptr);
    Call c{fn, {}};
    Call* up = g_call;
    g_call = &c;
    sa_status st = real(a...);
    g_call = up;
    Dump after = dump<Desc>(args, &before);
    if (st == SA_STATUS_OK && !odd.empty())
        viol(strf("null-status:%s", fn), "%s: with nothing else wrong, %s", fn, odd.c_str());
    if (c.ta.empty()) {
        if (st == SA_STATUS_OK)
            viol(strf("not-done:%s", fn), "%s reported success without asking the TA", fn);
        std::string df = changed(before.out, after.out);
        if (!df.empty())
            viol(strf("changed:%s:own", fn), "%s refused with %s but changed its outputs: %s", fn, status_name(st), df.c_str());
        // the TA refuses it too (asked only where it would not follow a null pointer it never gets)
        bool can = true;
        for (auto& f : before.in)
            if (f.second.find("NULL") != std::string::npos)
                can = false;
        if (can) {
            g_asked++;
            sa_status ts = ta(a..., g_slot, &UUID_REE);
            if (ts == SA_STATUS_OK)
                viol(strf("refused:%s", fn), "%s refused with %s what the TA accepts", fn, status_name(st));
            cov(strf("both-refuse:%s", fn));
        }
        return st;
    }
    Fields tin, tout;
    for (auto& t : c.ta) {
        if (strcmp(t.fn, fn))
            viol(strf("other-operation:%s", fn), "%s asked the TA for %s", fn, t.fn);
        for (auto& f : t.in)
            if (!(f.first == "samples" && &t != &c.ta[0]))
                tin.push_back(f);
        tout.insert(tout.end(), t.out.begin(), t.out.end());
    }
    bool cenc = !strcmp(fn, "process_common_encryption");
    if (c.ta.size() != 1 && !cenc)
        viol(strf("repeated:%s", fn), "%s made the TA do it %zu times", fn, c.ta.size());
    Fields in = before.in, out = after.out;
    if (cenc && st != SA_STATUS_OK) {   // stopped at a sample
        in.resize(std::min(in.size(), tin.size()));
        out.resize(std::min(out.size(), tout.size()));
    }
    std::string df = diff(in, tin);
    if (!df.empty())
        viol(strf("arguments:%s:%s", fn, field_of(df)), "%s gave the TA other arguments: %s", fn, df.c_str());
    sa_status ts = c.ta.back().st;
    if (st != ts && !(cenc && ts == SA_STATUS_OK && st != SA_STATUS_OK))
        viol(strf("status:%s", fn), "%s gave %s where the TA gave %s", fn, status_name(st), status_name(ts));
    if (cenc && ts == SA_STATUS_OK && st != SA_STATUS_OK)
        cov("cenc-refused-by-client");
    if (st == SA_STATUS_OK) {
        df = diff(out, tout);
        if (!df.empty())
            viol(strf("outputs:%s:%s", fn, field_of(df)), "%s gave other outputs than the TA: %s", fn, df.c_str());
    } else if (!cenc) {
        df = changed(before.out, after.out);
        if (!df.empty() && !diff(out, tout).empty())
            viol(strf("changed:%s:refused", fn), "%s failed with %s but changed its outputs: %s", fn, status_name(st), df.c_str());
    }
    g_same++;
    cov(strf("same:%s:%s", fn, status_name(st)));
    uint64_t h = hash_bytes(fn, strlen(fn), (uint64_t) st);
    for (auto& f : tin)
        h = hash_bytes(f.second.data(), f.second.size(), h);
    nontrivial(h);
    return st;
}
template <class Desc, class T, class... A> sa_status ta_call(const char* fn, T real, ta_client slot, const sa_uuid* uuid, A... a) {
    if (!g_call)
        return real(a..., slot, uuid);
    std::tuple<A...> args(a...);
    Dump before = dump<Desc>(args, nullptr);
    if (!uuid || *uuid != UUID_REE)
        viol_async(strf("caller:%s", fn), "the TA was called for the client library as another caller");
    Call* c = g_call;
    g_slot = slot;
    g_call = nullptr;
    sa_status st = real(a..., slot, uuid);
    g_call = c;
    Dump after = dump<Desc>(args, &before);
    c->ta.push_back({fn, before.in, after.out, st});
    return st;
}
}   // namespace
// (tools/build.py passes --wrap for each W line to the linker)
#define P0()
#define P1(A) A a
#define P2(A, B) A a, B b
#define P3(A, B, C) A a, B b, C c
#define P4(A, B, C, D_) A a, B b, C c, D_ d
#define P5(A, B, C, D_, E_) A a, B b, C c, D_ d, E_ e
#define P6(A, B, C, D_, E_, F_) A a, B b, C c, D_ d, E_ e, F_ f
#define P7(A, B, C, D_, E_, F_, G_) A a, B b, C c, D_ d, E_ e, F_ f, G_ g
#define P9(A, B, C, D_, E_, F_, G_, H_, I_) A a, B b, C c, D_ d, E_ e, F_ f, G_ g, H_ h, I_ i
#define N0
#define N1 a
#define N2 a, b
#define N3 a, b, c
#define N4 a, b, c, d
#define N5 a, b, c, d, e
#define N6 a, b, c, d, e, f
#define N7 a, b, c, d, e, f, g
#define N9 a, b, c, d, e, f, g, h, i
#define W(NAME, K, ...) \
    extern "C" sa_status __real_sa_##NAME(P##K(__VA_ARGS__)); \
    extern "C" sa_status __real_ta_sa_##NAME(P##K(__VA_ARGS__), ta_client, const sa_uuid*); \
    extern "C" sa_status __wrap_sa_##NAME(P##K(__VA_ARGS__)) { return client_call<D_##NAME>(#NAME, __real_sa_##NAME, __real_ta_sa_##NAME, N##K); } \
    extern "C" sa_status __wrap_ta_sa_##NAME(P##K(__VA_ARGS__), ta_client slot, const sa_uuid* u) { \
        return ta_call<D_##NAME>(#NAME, __real_ta_sa_##NAME, slot, u, N##K); \
    }
W(get_version, 1, sa_version*)
W(get_name, 2, char*, size_t*)
W(get_device_id, 1, uint64_t*)
W(get_ta_uuid, 1, sa_uuid*)
W(crypto_random, 2, void*, size_t)
W(crypto_cipher_init, 5, sa_crypto_cipher_context*, sa_cipher_algorithm, sa_cipher_mode, sa_key, void*)
W(crypto_cipher_update_iv, 3, sa_crypto_cipher_context, const void*, size_t)
W(crypto_cipher_process, 4, sa_buffer*, sa_crypto_cipher_context, sa_buffer*, size_t*)
W(crypto_cipher_process_last, 5, sa_buffer*, sa_crypto_cipher_context, sa_buffer*, size_t*, void*)
W(crypto_cipher_release, 1, sa_crypto_cipher_context)
W(crypto_mac_init, 4, sa_crypto_mac_context*, sa_mac_algorithm, sa_key, void*)
W(crypto_mac_process, 3, sa_crypto_mac_context, const void*, size_t)
W(crypto_mac_process_key, 2, sa_crypto_mac_context, sa_key)
W(crypto_mac_compute, 3, void*, size_t*, sa_crypto_mac_context)
W(crypto_mac_release, 1, sa_crypto_mac_context)
W(crypto_sign, 7, void*, size_t*, sa_signature_algorithm, sa_key, const void*, size_t, const void*)
W(key_generate, 4, sa_key*, const sa_rights*, sa_key_type, void*)
W(key_export, 5, void*, size_t*, const void*, size_t, sa_key)
W(key_import, 5, sa_key*, sa_key_format, const void*, size_t, void*)
W(key_unwrap, 9, sa_key*, const sa_rights*, sa_key_type, void*, sa_cipher_algorithm, void*, sa_key, const void*, size_t)
W(key_get_public, 3, void*, size_t*, sa_key)
W(key_derive, 4, sa_key*, const sa_rights*, sa_kdf_algorithm, void*)
W(key_exchange, 7, sa_key*, const sa_rights*, sa_key_exchange_algorithm, sa_key, const void*, size_t, void*)
W(key_release, 1, sa_key)
W(key_header, 2, sa_header*, sa_key)
W(key_digest, 4, void*, size_t*, sa_key, sa_digest_algorithm)
W(svp_buffer_create, 3, sa_svp_buffer*, void*, size_t)
W(svp_buffer_release, 3, void**, size_t*, sa_svp_buffer)
W(svp_buffer_write, 5, sa_svp_buffer, const void*, size_t, sa_svp_offset*, size_t)
W(svp_buffer_copy, 4, sa_svp_buffer, sa_svp_buffer, sa_svp_offset*, size_t)
W(svp_key_check, 5, sa_key, sa_buffer*, size_t, const void*, size_t)
W(svp_buffer_check, 6, sa_svp_buffer, size_t, size_t, sa_digest_algorithm, const void*, size_t)
W(process_common_encryption, 2, size_t, sa_sample*)
// W(svp_supported, 0)
extern "C" {
sa_status __real_sa_svp_supported();
sa_status __real_ta_sa_svp_supported(ta_client, const sa_uuid*);
sa_status __wrap_sa_svp_supported() { return client_call<D_svp_supported>("svp_supported", __real_sa_svp_supported, __real_ta_sa_svp_supported); }
sa_status __wrap_ta_sa_svp_supported(ta_client s, const sa_uuid* u) { return ta_call<D_svp_supported>("svp_supported", __real_ta_sa_svp_supported, s, u); }
}
namespace {
void init() {
    Rng r(7);
    ops_warmup(r);
}
// what only the client library has, and what the TA refuses an REE
void composite(Case& c) {
    Rng& r = c.r;
    size_t n = r.range(8, 300) * 2;
    sa_svp_buffer b = INVALID_HANDLE;
    uint64_t live = live_blocks();
    bool have = sa_svp_supported() == SA_STATUS_OK;
    void* m = nullptr;
    if (sa_svp_memory_alloc(nullptr, n) == SA_STATUS_OK || sa_svp_buffer_alloc(nullptr, n) == SA_STATUS_OK)
        viol("accepted:svp_alloc", "a null pointer was accepted");
    sa_status st = sa_svp_memory_alloc(&m, n);
    if ((st == SA_STATUS_OK) != have || !m)
        viol("svp_memory_alloc", "allocating SVP memory gave %s", status_name(st));
    memset(m, 0x5a, n);
    st = sa_svp_memory_free(m);
    if (st != SA_STATUS_OK)
        viol("svp_memory_free", "freeing SVP memory gave %s", status_name(st));
    st = sa_svp_buffer_alloc(&b, n);
    if (st != SA_STATUS_OK || b == INVALID_HANDLE)
        viol("svp_buffer_alloc", "allocating an SVP buffer gave %s", status_name(st));
    if (sa_svp_buffer_alloc(&b, SIZE_MAX / 2) == SA_STATUS_OK)
        viol("accepted:svp_buffer_alloc", "an SVP buffer of half the address space was made");
    GBuf data(r.bytes(n));
    sa_svp_offset o[2] = {{0, n / 2, n - n / 2}, {n - n / 2, 0, n / 2}};
    st = sa_svp_buffer_write(b, data.p, n, o, 2);
    if (st != SA_STATUS_OK)
        viol("svp_buffer_write", "writing an SVP buffer gave %s", status_name(st));
    sa_svp_buffer b2 = INVALID_HANDLE;
    HCHECK(sa_svp_buffer_alloc(&b2, n) == SA_STATUS_OK);
    st = sa_svp_buffer_copy(b2, b, o, 2);
    if (st != SA_STATUS_OK)
        viol("svp_buffer_copy", "copying an SVP buffer gave %s", status_name(st));
    Bytes h = ref_digest(SA_DIGEST_ALGORITHM_SHA256, data.get());
    st = sa_svp_buffer_check(b2, 0, n, SA_DIGEST_ALGORITHM_SHA256, h.data(), h.size());
    if (st == SA_STATUS_OK)
        viol("accepted:svp_buffer_check", "an REE could check an SVP buffer");
    GBuf in(r.bytes(16));
    sa_buffer ib = r.coin() ? clear_buf(in.p, 16) : svp_buf(b);
    st = sa_svp_key_check(c.w.h(K_SYM16), &ib, 16, h.data(), 16);
    if (st == SA_STATUS_OK)
        viol("accepted:svp_key_check", "a key check succeeded with another result");
    if (r.coin()) {
        void* m2 = nullptr;
        size_t z = 0;
        if (sa_svp_buffer_release(&m2, &z, b2) != SA_STATUS_OK || z != n)
            viol("svp_buffer_release", "releasing gave %zu bytes", z);
        if (Bytes((uint8_t*) m2, (uint8_t*) m2 + n) != data.get() )
            viol("svp_buffer_copy:content", "writing and copying twice by halves gave other bytes");
        sa_svp_memory_free(m2);
    } else if (sa_svp_buffer_free(b2) != SA_STATUS_OK)
        viol("svp_buffer_free", "freeing an SVP buffer failed");
    for (sa_svp_buffer bad : {(sa_svp_buffer) INVALID_HANDLE, (sa_svp_buffer) 256, (sa_svp_buffer) (b + ((sa_handle) 1 << 32))})
        if (sa_svp_buffer_free(bad) == SA_STATUS_OK)
            viol("accepted:svp_buffer_free", "SVP buffer %lx could be freed", (unsigned long) bad);
    if (sa_svp_buffer_free(b) != SA_STATUS_OK)
        viol("svp_buffer_free", "freeing an SVP buffer failed");
    if (live_blocks() != live)
        viol("memory-held:svp", "SVP memory was left");
    cov("composite:svp");
}
// a cipher over buffers that begin and go on in the middle
void offsets(Case& c) {
    Rng& r = c.r;
    bool ctr = r.coin(), enc = r.coin();
    Bytes key = r.bytes(16);
    sa_key k = must_sym(c.s, key);
    CParams p;
    sa_cipher_algorithm a = ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC;
    cparams_rand(p, r, a);
    sa_crypto_cipher_context x = INVALID_HANDLE;
    if (cinit(c.s, &x, a, enc ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k, p) != SA_STATUS_OK)
        viol("use-refused:offsets", "a cipher could not be made");
    size_t n = 16 * r.range(2, 12), io = r.below(40), oo = r.below(40), ie = r.below(20), oe = r.below(20);
    bool svp_in = !enc && r.chance(4), svp_out = svp_in || r.chance(4);
    Mem in(c.s, svp_in, io + n + ie), out(c.s, svp_out, oo + n + oe);
    Bytes text = r.bytes(n), expect = ctr ? ref_ctr(key, p.ctr, text) : ref_cbc(key, p.iv, text, enc);
    memcpy(in.g.p + io, text.data(), n);
    sa_buffer ib = in.buf(io), ob = out.buf(oo);
    size_t left = n;
    while (left) {
        size_t m = 16 * r.range(1, left / 16), want = m;
        size_t i0 = off_of(ib), o0 = off_of(ob);
        sa_status st = SA(c.s, crypto_cipher_process, &ob, x, &ib, &m);
        if (st != SA_STATUS_OK || m != want)
            viol("use-refused:offsets", "processing %zu bytes at offset %zu gave %s, %zu bytes", want, i0, status_name(st), m);
        if (off_of(ib) != i0 + m || off_of(ob) != o0 + m)
            viol("offset:process", "the offsets went from %zu and %zu to %zu and %zu with %zu bytes", i0, o0, off_of(ib), off_of(ob), m);
        left -= m;
    }
    if (out.g.get(oo, n) != expect)
        viol("output:offsets", "processing by parts gave other bytes");
    for (size_t i = 0; i < out.g.n; i++)
        if ((i < oo || i >= oo + n) && out.g.p[i] != 0xA5)
            viol("output:outside", "processing wrote outside");
    SA(c.s, crypto_cipher_release, x);
    SA(c.s, key_release, k);
    cov(strf("offsets:%s%s", svp_in ? "svp to " : "clear to ", svp_out ? "svp" : "clear"));
}
// common encryption samples of many parts
void many_parts(Case& c) {
    Rng& r = c.r;
    bool ctr = r.coin();
    Bytes key = r.bytes(16);
    sa_key k = must_sym(c.s, key);
    CParams p;
    sa_cipher_algorithm a = ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC;
    cparams_rand(p, r, a);
    sa_crypto_cipher_context x = INVALID_HANDLE;
    HCHECK(cinit(c.s, &x, a, SA_CIPHER_MODE_DECRYPT, k, p) == SA_STATUS_OK);
    struct One {
        std::vector<sa_subsample_length> parts;
        Bytes in, expect, iv;
        std::unique_ptr<Mem> i, o;
        sa_buffer ib, ob;
        size_t io, oo;
    };
    size_t n = r.range(1, 3);
    std::vector<One> s(n);
    std::vector<sa_sample> sm(n);
    for (size_t j = 0; j < n; j++) {
        One& q = s[j];
        size_t parts = r.pick({1, 1, 2, 3, 17, 255, 256, 257, 300});
        if (r.chance(20))
            parts = 65537 + r.below(3);
        q.iv = r.bytes(16);
        Bytes prot;
        bool few = parts < 5;
        for (size_t i = 0; i < parts; i++) {
            size_t pl = ctr ? few ? r.below(70) : r.below(3) : 16 * r.below(few ? 5 : 2);
            q.parts.push_back({r.below(few ? 30 : 2), pl});
        }
        for (auto& l : q.parts) {
            app(q.in, r.bytes(l.bytes_of_clear_data + l.bytes_of_protected_data));
            prot.insert(prot.end(), q.in.end() - (long) l.bytes_of_protected_data, q.in.end());
        }
        if (q.in.empty()) {
            q.parts[0] = {3, 16};
            q.in = r.bytes(19);
            prot.assign(q.in.begin() + 3, q.in.end());
        }
        Bytes dec = prot.empty() ? prot : ctr ? ref_ctr64(key, q.iv, prot) : ref_cbc(key, q.iv, prot, false);
        q.expect = q.in;
        size_t at = 0, d = 0;
        for (auto& l : q.parts) {
            at += l.bytes_of_clear_data;
            std::copy(dec.begin() + (long) d, dec.begin() + (long) (d + l.bytes_of_protected_data), q.expect.begin() + (long) at);
            at += l.bytes_of_protected_data;
            d += l.bytes_of_protected_data;
        }
        q.io = r.below(20), q.oo = r.below(20);
        bool so = r.chance(40), si = so && r.coin();
        q.i.reset(new Mem(c.s, si, q.io + q.in.size() + r.below(5)));
        q.o.reset(new Mem(c.s, so, q.oo + q.in.size() + r.below(5)));
        memcpy(q.i->g.p + q.io, q.in.data(), q.in.size());
        q.ib = q.i->buf(q.io);
        q.ob = q.o->buf(q.oo);
        sm[j] = {q.iv.data(), 16, 0, 0, q.parts.size(), q.parts.data(), x, &q.ob, &q.ib};
    }
    sa_status st = SA(c.s, process_common_encryption, n, sm.data());
    if (st != SA_STATUS_OK)
        viol("use-refused:cenc-parts", "samples of %zu and more parts gave %s", s[0].parts.size(), status_name(st));
    for (size_t j = 0; j < n; j++) {
        if (s[j].o->g.get(s[j].oo, s[j].expect.size()) != s[j].expect)
            viol("output:cenc-parts", "sample %zu with %zu parts was not decrypted as defined", j, s[j].parts.size());
        if (off_of(s[j].ib) != s[j].io + s[j].in.size() || off_of(s[j].ob) != s[j].oo + s[j].in.size())
            viol("offset:cenc-parts", "the offsets of sample %zu went to %zu and %zu", j, off_of(s[j].ib), off_of(s[j].ob));
    }
    SA(c.s, crypto_cipher_release, x);
    SA(c.s, key_release, k);
    for (auto& q : s)
        cov(strf("cenc-parts:%s%s", q.i->svp ? "svp to " : "clear to ", q.o->svp ? "svp" : "clear"));
    cov("cenc-parts");
}
// key provisioning with null, empty and unknown arguments
void provision(Case& c) {
    Rng& r = c.r;
    uint8_t data[64] = {1};
    sa_import_parameters_soc ps;
    memset(&ps, 0, sizeof ps);
    ps.length[0] = sizeof ps >> 8;
    ps.length[1] = sizeof ps & 255;
    WidevineOemProvisioning wv;
    memset(&wv, 0, sizeof wv);
    wv.oemDevicePrivateKeyLength = wv.oemDeviceCertificateLength = 64;
    wv.oemDevicePrivateKey = wv.oemDeviceCertificate = data;
    PlayReadyProvisioning pr;
    memset(&pr, 0, sizeof pr);
    pr.privateKeyLength = pr.modelCertificateLength = 64;
    pr.privateKey = pr.modelCertificate = data;
    NetflixProvisioning nf;
    memset(&nf, 0, sizeof nf);
    nf.hmacKeyLength = nf.wrappingKeyLength = nf.esnContainerLength = 64;
    nf.hmacKey = nf.wrappingKey = nf.esnContainer = data;
    int type = r.pick({(int) WIDEVINE_OEM_PROVISIONING, (int) PLAYREADY_MODEL_PROVISIONING, (int) NETFLIX_PROVISIONING});
    void* in = type == WIDEVINE_OEM_PROVISIONING ? (void*) &wv : type == PLAYREADY_MODEL_PROVISIONING ? (void*) &pr : (void*) &nf;
    size_t n = type == WIDEVINE_OEM_PROVISIONING ? sizeof wv : type == PLAYREADY_MODEL_PROVISIONING ? sizeof pr : sizeof nf;
    void* p = &ps;
    int how = (int) r.below(8);
    size_t k;
    switch (how) {
        case 0: in = nullptr; break;
        case 1: p = nullptr; break;
        case 2: n = 0; break;
        case 3: type = r.pick({5, 256 + type, 0x10000 + type, -1, 0x7fffffff, (int) 0x80000000 + type}); break;
        case 4: wv.oemDevicePrivateKey = pr.privateKey = nf.hmacKey = nullptr; break;
        case 5: wv.oemDeviceCertificate = pr.modelCertificate = nf.wrappingKey = nullptr; break;
        case 6: wv.oemDevicePrivateKeyLength = pr.modelCertificateLength = nf.esnContainerLength = 0; break;
        default:
            k = r.below(n);   // too short for what it is
            n = k;
            break;
    }
    GBuf g(in ? Bytes((uint8_t*) in, (uint8_t*) in + (how == 7 ? std::max<size_t>(n, 1) : type > 4 || type < 0 || n == 0 ? std::max<size_t>(n, 1) : n)) : Bytes(1));
    uint64_t live = live_blocks();
    sa_status st = how == 7 ? sa_key_provision_ta((sa_key_type_ta) type, in, n, p) : sa_key_provision_ta((sa_key_type_ta) type, in ? g.p : nullptr, n, p);
    if (st == SA_STATUS_OK)
        viol("accepted:key_provision_ta", "provisioning of type %d accepted variant %d", type, how);
    if (live_blocks() != live)
        viol("memory-held:key_provision_ta", "refused provisioning left memory");
    cov(strf("spoilt:key_provision_ta:%d:%s", how, status_name(st)));
}
void one(Rng& r, uint64_t index) {
    uint64_t before = live_blocks();
    g_judge = false;
    g_q = Rng(r.next());
    g_spoil = index % 4 != 0;
    ClientCtx cctx(true);
    {
        Sess s(false, UUID_REE);
        World w(s, r);
        Case c{s, w, r};
        g_judge = true;
        for (size_t n = r.range(4, 8); n--;) {
            switch (r.below(14)) {
                case 12: offsets(c); continue;
                case 13: many_parts(c); continue;
                case 0: composite(c); continue;
                case 1: provision(c); continue;
                case 2: case 3: {
                    std::unique_ptr<Obj> o = obj_create(s, r, (OT) r.below(4));
                    for (size_t k = r.range(1, 4); k--;)
                        o->use(s, r);
                    o->verify(s, r);
                    o->finish(s, r);
                    if (o->release(s) != SA_STATUS_OK)
                        viol("release", "an object could not be released");
                    cov(strf("object:%s", ot_name(o->type)));
                    continue;
                }
                default: break;
            }
            Act a = act_rand(c, true);
            trace("%s", a.name.c_str());
            Rng q(r.next());
            sa_status st = a.run(q);
            if ((st == SA_STATUS_OK) == a.must_fail)
                viol(strf("%s:%s", a.must_fail ? "accepted" : "use-refused", a.name.c_str()), "%s gave %s", a.name.c_str(), status_name(st));
            cov(strf("activity:%s", a.name.c_str()));
        }
        w.verify(r);
        w.use_all(r);
        g_judge = false;
    }
    cctx.end();
    if (live_blocks() != before)
        viol("memory-held:session", "TA and client memory blocks before: %" PRIu64 ", after the session ended: %" PRIu64, before, live_blocks());
    if (index % 100 == 1)
        sample(strf("case seed %" PRIu64 ": %" PRIu64 " calls compared, %" PRIu64 " spoilt, %" PRIu64 " refused by both so far", g_case_seed, g_same, g_spoilt, g_asked));
}
void finish() {
    cov("calls-compared", g_same);
    cov("calls-spoilt", g_spoilt);
}
}   // namespace
Harness harness() {
    return {"operations, object life cycles, imports, provisioning and invalid calls through the client library, each call compared with the TA operation it reached, "
            "and preceded by calls with one argument spoilt. Distinct: function, arguments, status; or function, spoilt argument, status",
            init, one, finish};
}
