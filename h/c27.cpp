// C27: the OpenSSL provider against plain OpenSSL: the same EVP calls go to both, with the key behind a SecAPI handle on one side
#include "acts.hpp"
extern "C" {
#include "sa_provider.h"
}
// what the monitor notes down is not the library's memory
#define trace(...) (w_in_call = false, trace(__VA_ARGS__), w_in_call = true)
#define cov(...) (w_in_call = false, cov(__VA_ARGS__), w_in_call = true)
#define nontrivial(...) (w_in_call = false, nontrivial(__VA_ARGS__), w_in_call = true)
#define viol(...) (show_errors(), viol(__VA_ARGS__))
namespace {
void show_errors() {   // what OpenSSL has to say, when asked
    if (getenv("VERIF_LOG"))
        ERR_print_errors_fp(stderr);
}
OSSL_LIB_CTX* L;
// SA inside a flow: blocks allocated by later EVP calls stay tracked
#define SX(FN, ...) again(SA(c.s, FN, __VA_ARGS__))
sa_status again(sa_status st) {
    w_in_call = true;
    return st;
}
struct Ctx {
    Sess& s;
};
template <class T, void (*F)(T*)> struct Own {
    T* p;
    explicit Own(T* q = nullptr) : p(q) {}
    Own(const Own&) = delete;
    ~Own() { F(p); }
    operator T*() const { return p; }
    T** operator&() { return &p; }
    T* take() {
        T* q = p;
        p = nullptr;
        return q;
    }
    void set(T* q) {
        F(p);
        p = q;
    }
};
typedef Own<EVP_CIPHER, EVP_CIPHER_free> Ciph;
typedef Own<EVP_CIPHER_CTX, EVP_CIPHER_CTX_free> CiphCtx;
typedef Own<EVP_MAC, EVP_MAC_free> Mac;
typedef Own<EVP_MAC_CTX, EVP_MAC_CTX_free> MacCtx;
typedef Own<EVP_MD, EVP_MD_free> Md;
typedef Own<EVP_MD_CTX, EVP_MD_CTX_free> MdCtx;
typedef Own<EVP_KDF, EVP_KDF_free> Kdf;
typedef Own<EVP_KDF_CTX, EVP_KDF_CTX_free> KdfCtx;
typedef Own<EVP_PKEY, EVP_PKEY_free> PKey;
typedef Own<EVP_PKEY_CTX, EVP_PKEY_CTX_free> PCtx;

sa_rights all_() { return rights_all(); }
sa_key new_sym(Ctx& c, const Bytes& b) {
    sa_key k = must_sym(c.s, b);
    w_in_call = true;
    return k;
}
// Key handles given to the provider: whose they are
struct Handles {
    Ctx& c;
    struct H {
        sa_key h;
        bool given;   // with SA_KEY_DELETE: the provider's now
        Bytes mat;
    };
    std::vector<H> v;
    explicit Handles(Ctx& c_) : c(c_) {}
    void add(sa_key h, bool given, const Bytes& mat = {}) {
        for (auto& x : v)   // given earlier, released since, and now the handle of another key
            if (x.h == h) {
                if (!x.given)
                    viol("key-taken", "the handle of the key the caller keeps is the handle of another key now");
                x = {h, given, mat};
                return;
            }
        v.push_back({h, given, mat});
    }
    // to be called when every OpenSSL object is gone
    void settle() {
        for (auto& h : v) {
            sa_header hd;
            sa_status st = SX(key_header, &hd, h.h);
            if (h.given) {
                if (st == SA_STATUS_OK) {
                    SX(key_release, h.h);
                    viol("key-kept", "the key handle given to the provider for deletion is still there when its last object is freed");
                }
                continue;
            }
            if (st != SA_STATUS_OK)
                viol("key-taken", "the caller's key handle, not given for deletion, is gone: sa_key_header gives %s", status_name(st));
            std::string why;
            if (!h.mat.empty() && !sym_matches(c.s, h.h, h.mat, &why))
                viol("key-changed", "the caller's key is another one now: %s", why.c_str());
            w_in_call = true;
            if (SX(key_release, h.h) != SA_STATUS_OK)
                viol("key-stuck", "the caller's key handle cannot be released");
        }
        v.clear();
    }
};
struct Params {
    std::vector<OSSL_PARAM> v;
    uint64_t key = 0;
    int del = 0;
    Params() {}
    Params(const Params&) = delete;
    void sa(sa_key h, int d) {   // d: -1 absent
        key = h;
        v.push_back(OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &key));
        if (d >= 0) {
            del = d;
            v.push_back(OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del));
        }
    }
    void utf8(const char* k, const char* s) { v.push_back(OSSL_PARAM_construct_utf8_string(k, (char*) s, 0)); }
    void oct(const char* k, const Bytes& b) { v.push_back(OSSL_PARAM_construct_octet_string(k, (void*) (b.empty() ? (const uint8_t*) "" : b.data()), b.size())); }
    const OSSL_PARAM* end() {
        v.push_back(OSSL_PARAM_construct_end());
        return v.data();
    }
};
// lengths of the pieces a message is handed over in
std::vector<size_t> cuts(Rng& r, size_t n) {
    std::vector<size_t> v;
    if (r.chance(25))
        return {n};
    while (n > 0) {
        size_t k = r.chance(15) ? 0 : r.chance(50) ? std::min<size_t>(n, r.range(1, 40)) : std::min<size_t>(n, 16 * r.range(1, 4));
        v.push_back(k);
        n -= k;
    }
    if (r.chance(10))
        v.push_back(0);
    return v;
}
#define GUARDS(b, what) do { if (!(b).guards_ok()) viol(strf("overrun:%s", what), "%s wrote outside the buffer it was given", what); } while (0)

// ---------------------------------------------------------------- ciphers
struct CAlg {
    const char* name;
    size_t key, iv, block;
    bool aead;
    bool iv_restart;   // init without an IV starts again from the last one
};
const CAlg CALGS[] = {{"AES-128-ECB", 16, 0, 16, false, true}, {"AES-256-ECB", 32, 0, 16, false, true}, {"AES-128-CBC", 16, 16, 16, false, true},
        {"AES-256-CBC", 32, 16, 16, false, true}, {"AES-128-CTR", 16, 16, 1, false, false}, {"AES-256-CTR", 32, 16, 1, false, false},
        {"AES-128-GCM", 16, 12, 1, true, false}, {"AES-256-GCM", 32, 12, 1, true, false}, {"ChaCha20", 32, 16, 1, false, false},
        {"ChaCha20-Poly1305", 32, 12, 1, true, false}};
int aad_update(EVP_CIPHER_CTX* x, bool enc, const Bytes& b) {
    GBuf in(b);
    int l = 0;
    int rc = EVP_CipherUpdate(x, nullptr, &l, in.p, (int) in.n);
    GUARDS(in, "the update with AAD");
    return rc;
}
void flow_cipher(Ctx& c, Rng& r) {
    const CAlg& a = r.pick(CALGS);
    bool gcm = strstr(a.name, "GCM");
    Handles hs(c);
    Finally fin{[&] { hs.settle(); }};
    Ciph ca(EVP_CIPHER_fetch(L, a.name, nullptr)), cb(EVP_CIPHER_fetch(nullptr, a.name, nullptr));
    HCHECK(cb);
    if (!ca)
        viol("fetch", "no %s", a.name);
    if (EVP_CIPHER_get_key_length(ca) != EVP_CIPHER_get_key_length(cb) || EVP_CIPHER_get_block_size(ca) != EVP_CIPHER_get_block_size(cb) ||
            (a.iv && EVP_CIPHER_get_iv_length(ca) != EVP_CIPHER_get_iv_length(cb)) ||
            (EVP_CIPHER_get_flags(ca) & EVP_CIPH_FLAG_AEAD_CIPHER) != (EVP_CIPHER_get_flags(cb) & EVP_CIPH_FLAG_AEAD_CIPHER))
        viol("cipher-params", "%s: key, block or IV length differ", a.name);
    CiphCtx xa(EVP_CIPHER_CTX_new()), xb(EVP_CIPHER_CTX_new());
    Bytes key, iv;
    bool enc = true, pad = true, first = true;
    int rounds = (int) r.range(1, 4);
    sa_key cur = INVALID_HANDLE;   // a caller's key last set
    Bytes curmat;
    for (int k = 0; k < rounds; k++) {
        bool was = enc;
        enc = r.coin();
        bool newkey = first || r.chance(40);
        bool newiv = first || !a.iv_restart || r.chance(60);
        if (newiv)
            iv = r.bytes(a.iv);
        const uint8_t* ivp = newiv && a.iv ? iv.data() : nullptr;
        Params p;
        int form = (int) r.below(3);
        sa_key h = INVALID_HANDLE;
        bool refuse = false;
        if (newkey) {
            key = r.bytes(a.key);
            if (form > 0) {
                int d = (int) r.below(3) - 1;
                if (cur != INVALID_HANDLE && r.chance(30)) {   // the same handle again
                    h = cur;
                    key = curmat;
                    d = r.coin() ? -1 : 0;
                } else if (r.chance(6)) {
                    refuse = true;
                    if (r.coin()) {
                        Bytes bad = r.bytes(a.key == 16 ? 32 : 16);
                        h = new_sym(c, bad);
                        hs.add(h, false, bad);
                    } else
                        h = r.coin() ? INVALID_HANDLE : 77777;
                } else {
                    h = new_sym(c, key);
                    hs.add(h, d == 1, key);
                    if (d != 1)
                        cur = h, curmat = key;
                    else
                        cur = INVALID_HANDLE;
                }
                p.sa(h, d);
            } else
                cur = INVALID_HANDLE;
        }
        GBuf kb(key);
        int ra, rb;
        trace("%s %s init key %s iv %s handle %" PRIu64 " delete %d", a.name, enc ? "encrypt" : "decrypt", !newkey ? "kept" : form == 0 ? "raw" : form == 1 ? "handle at init" : "handle set later",
                ivp ? "new" : "kept", (uint64_t) h, p.del);
        rb = EVP_CipherInit_ex2(xb, first ? (EVP_CIPHER*) cb : nullptr, newkey || was != enc ? key.data() : nullptr, ivp, enc, nullptr);
        if (newkey && form == 2) {
            ra = EVP_CipherInit_ex2(xa, first ? (EVP_CIPHER*) ca : nullptr, nullptr, ivp, enc, nullptr);
            if (ra == 1)
                ra = EVP_CIPHER_CTX_set_params(xa, p.end());
        } else
            ra = EVP_CipherInit_ex2(xa, first ? (EVP_CIPHER*) ca : nullptr, newkey && form == 0 ? kb.p : nullptr, ivp, enc, p.v.empty() ? nullptr : p.end());
        HCHECK(rb == 1);
        if (refuse) {
            if (ra == 1)
                viol("bad-key-accepted", "%s took a key handle of another size, or none", a.name);
            cov("cipher-bad-key");
            break;
        }
        if (ra != 1)
            viol("init", "%s init refused", a.name);
        if (h != INVALID_HANDLE) {
            uint64_t got = 0;
            OSSL_PARAM q[] = {OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &got), OSSL_PARAM_construct_end()};
            if (EVP_CIPHER_CTX_get_params(xa, q) != 1 || got != h)
                viol("get-key", "%s: the key handle asked back is %" PRIu64 ", not %" PRIu64, a.name, got, (uint64_t) h);
        }
        if (a.block == 16 && (first || r.chance(50))) {
            pad = r.coin();
            EVP_CIPHER_CTX_set_padding(xa, pad);
            EVP_CIPHER_CTX_set_padding(xb, pad);
            unsigned got = 9;
            OSSL_PARAM q[] = {OSSL_PARAM_construct_uint(OSSL_CIPHER_PARAM_PADDING, &got), OSSL_PARAM_construct_end()};
            if (EVP_CIPHER_CTX_get_params(xa, q) != 1 || got != (unsigned) pad)
                viol("get-padding", "%s", a.name);
        }
        first = false;
        // the input
        size_t n = r.len(400);
        if (a.block == 16 && !pad && r.chance(80))
            n &= ~15ull;
        if (n == 0 && r.chance(80))
            n = 16;
        Bytes msg = r.bytes(n), aad, tag(16);
        std::vector<Bytes> aads;
        if (a.aead)
            for (size_t i = r.chance(30) ? 0 : r.range(1, 3); i > 0; i--) {
                aads.push_back(r.bytes(r.len(100)));
                app(aad, aads.back());
            }
        size_t taglen = gcm && r.chance(40) ? r.range(1, 16) : 16;
        bool altered = false;
        if (!enc) {
            CiphCtx e(EVP_CIPHER_CTX_new());
            HCHECK(EVP_EncryptInit_ex2(e, cb, key.data(), a.iv ? iv.data() : nullptr, nullptr) == 1);
            EVP_CIPHER_CTX_set_padding(e, pad);
            int l = 0, m = 0;
            if (!aad.empty())
                HCHECK(EVP_EncryptUpdate(e, nullptr, &l, aad.data(), (int) aad.size()) == 1);
            Bytes ct(n + 32);
            l = 0;
            HCHECK(n == 0 || EVP_EncryptUpdate(e, ct.data(), &l, msg.data(), (int) n) == 1);
            if (EVP_EncryptFinal_ex(e, ct.data() + l, &m) == 1) {
                ct.resize((size_t) (l + m));
                msg = ct;
            }   // else not whole blocks: as it is
            if (a.aead)
                HCHECK(EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_AEAD_GET_TAG, 16, tag.data()) == 1);
            tag.resize(taglen);
            if (r.chance(25) && !(msg.empty() && !a.aead)) {
                altered = true;
                if (a.aead && (msg.empty() || r.coin()))
                    tag[r.below(taglen)] ^= (uint8_t) (1 << r.below(8));
                else
                    msg[r.below(msg.size())] ^= (uint8_t) (1 << r.below(8));
            }
            if (a.block == 16 && r.chance(8))
                msg.resize(r.below(msg.size() + 1));
        }
        bool abandon = r.chance(15);
        bool tag_first = r.coin();
        auto put_tag = [&] {
            if (a.aead && !enc)
                for (EVP_CIPHER_CTX* x : {xa.p, xb.p})
                    if (EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, (int) taglen, tag.data()) != 1) {
                        HCHECK(x == xa.p);
                        viol("set-tag", "%s: a tag of %zu bytes refused", a.name, taglen);
                    }
        };
        if (tag_first)
            put_tag();
        for (auto& x : aads) {
            ra = aad_update(xa, enc, x), rb = aad_update(xb, enc, x);
            HCHECK(rb == 1);
            if (ra != 1)
                viol("aad", "%s: AAD of %zu bytes refused", a.name, x.size());
        }
        Bytes oa, ob;
        size_t at = 0;
        bool stop = false;
        auto pieces = cuts(r, msg.size());
        for (size_t i = 0; i < pieces.size() && !stop; i++) {
            if (abandon && r.chance(30))
                break;
            size_t m = pieces[i];
            GBuf in(Bytes(msg.begin() + (long) at, msg.begin() + (long) (at + m)));
            at += m;
            for (bool second : {false, true}) {
                GBuf out(m + (a.block == 1 ? 0 : a.block));
                int l = -7;
                int rc = EVP_CipherUpdate(second ? xb : xa, out.p, &l, in.p, (int) m);
                GUARDS(out, "an update");
                GUARDS(in, "an update");
                if (rc == 1 && (l < 0 || (size_t) l > out.n))
                    viol("update-length", "%s says it wrote %d bytes for %zu", a.name, l, m);
                (second ? rb : ra) = rc;
                if (rc == 1)
                    app(second ? ob : oa, out.get(0, (size_t) l));
            }
            trace("update %zu -> %d %zu / %d %zu", m, ra, oa.size(), rb, ob.size());
            if (ra != rb)
                viol("update", "%s: an update of %zu bytes gives %d, OpenSSL's %d", a.name, m, ra, rb);
            size_t common = std::min(oa.size(), ob.size());
            if (common && memcmp(oa.data(), ob.data(), common) != 0)
                viol("output", "%s: output so far %s, OpenSSL's %s", a.name, hex(oa).c_str(), hex(ob).c_str());
            stop = ra != 1;
        }
        if (stop)
            break;
        if (abandon) {
            cov("cipher-abandoned");
            continue;
        }
        if (gcm && !msg.empty() && r.chance(5)) {
            Bytes late = r.bytes(r.range(1, 20));
            HCHECK(aad_update(xb, enc, late) != 1);
            if (aad_update(xa, enc, late) == 1)
                viol("late-aad", "%s: AAD after the data is taken and ignored", a.name);
            cov("cipher-late-aad");
            break;
        }
        if (!tag_first)
            put_tag();
        bool null_out = a.aead && r.chance(15);
        for (bool second : {false, true}) {
            GBuf out(a.block == 1 ? 0 : a.block);
            int l = -7;
            int rc = EVP_CipherFinal_ex(second ? xb : xa, null_out ? nullptr : out.p, &l);
            GUARDS(out, "the final call");
            if (rc == 1 && (l < 0 || (size_t) l > out.n))
                viol("final-length", "%s: the final call says it wrote %d bytes", a.name, l);
            (second ? rb : ra) = rc;
            if (rc == 1)
                app(second ? ob : oa, out.get(0, (size_t) l));
        }
        trace("final -> %d %zu / %d %zu", ra, oa.size(), rb, ob.size());
        if (ra != rb)
            viol(strf("final:%s", enc ? "encrypt" : "decrypt"), "%s: the final call gives %d, OpenSSL's %d%s", a.name, ra, rb, altered ? " (altered)" : "");
        if (rb == 1 && oa != ob)
            viol("output", "%s: output %s, OpenSSL's %s", a.name, hex(oa).c_str(), hex(ob).c_str());
        if (enc && a.aead && rb == 1) {
            GBuf ta(taglen);
            Bytes tb(taglen);
            HCHECK(EVP_CIPHER_CTX_ctrl(xb, EVP_CTRL_AEAD_GET_TAG, (int) taglen, tb.data()) == 1);
            if (EVP_CIPHER_CTX_ctrl(xa, EVP_CTRL_AEAD_GET_TAG, (int) taglen, ta.p) != 1)
                viol("get-tag", "%s: no tag of %zu bytes", a.name, taglen);
            GUARDS(ta, "asking for the tag");
            if (ta.get() != tb)
                viol("tag", "%s: tag %s, OpenSSL's %s (%zu AAD parts)", a.name, hex(ta.get()).c_str(), hex(tb).c_str(), aads.size());
        }
        cov(strf("cipher:%s:%s:%s", a.name, enc ? "encrypt" : "decrypt", rb == 1 ? "done" : "refused"));
        nontrivial(hash_bytes(a.name, strlen(a.name), mix64(n * 64 + pieces.size(), (uint64_t) (k * 8 + form * 2 + enc))));
        if (rb != 1)
            break;
    }
    if (r.chance(10)) {   // not offered
        CiphCtx d(EVP_CIPHER_CTX_new());
        if (EVP_CIPHER_CTX_copy(d, xa) == 1)
            viol("copied", "a cipher context without a copy function was copied");
    }
    xa.set(nullptr);
    xb.set(nullptr);
    cov("flow:cipher");
}
// ---------------------------------------------------------------- MACs
const char* const MDS[] = {"SHA1", "SHA256", "SHA384", "SHA512"};
void flow_mac(Ctx& c, Rng& r) {
    bool hmac = r.coin();
    const char* name = hmac ? "HMAC" : "CMAC";
    Handles hs(c);
    Finally fin{[&] { hs.settle(); }};
    Mac ma(EVP_MAC_fetch(L, name, nullptr)), mb(EVP_MAC_fetch(nullptr, name, nullptr));
    if (!ma)
        viol("fetch", "no %s", name);
    MacCtx xa(EVP_MAC_CTX_new(ma)), xb(EVP_MAC_CTX_new(mb));
    HCHECK(xb);
    if (!xa)
        viol("ctx", "no %s context", name);
    if (hmac && r.chance(10)) {   // nothing set yet
        size_t sa = EVP_MAC_CTX_get_mac_size(xa);
        if (sa > 64)
            viol("mac-size", "an HMAC without digest gives %zu bytes", sa);
        Bytes k = r.bytes(16);
        if (EVP_MAC_init(xa, k.data(), k.size(), nullptr) == 1)
            viol("no-digest", "HMAC without a digest was started");
        cov("mac-no-digest");
        if (r.coin())
            return;
    }
    if (r.chance(10)) {
        if (EVP_MAC_init(xa, nullptr, 0, nullptr) == 1)
            viol("no-key", "%s without a key was started", name);
        cov("mac-no-key");
    }
    const char* md = r.pick(MDS);
    Bytes key;
    sa_key cur = INVALID_HANDLE;
    Bytes curmat;
    int rounds = (int) r.range(1, 4);
    for (int k = 0; k < rounds; k++) {
        bool newkey = k == 0 || r.chance(50);
        int form = (int) r.below(3);   // raw, handle at init, handle set before
        Params p, pb, pd;
        sa_key h = INVALID_HANDLE;
        bool refuse = false;
        if (newkey) {
            key = r.bytes(hmac ? r.range(16, 150) : r.coin() ? 16 : 32);
            if (!hmac && r.chance(5)) {
                refuse = true;
                key = r.bytes(r.range(17, 31));
            }
            if (form) {
                int d = (int) r.below(3) - 1;
                if (cur != INVALID_HANDLE && r.chance(30)) {
                    h = cur;
                    key = curmat;
                    refuse = false;
                    d = r.coin() ? -1 : 0;
                } else if (!refuse && r.chance(5)) {
                    refuse = true;
                    h = r.coin() ? INVALID_HANDLE : 77777;
                } else {
                    h = new_sym(c, key);
                    hs.add(h, d == 1, key);
                    cur = d == 1 || refuse ? INVALID_HANDLE : h;
                    curmat = key;
                }
                p.sa(h, d);
            } else
                cur = INVALID_HANDLE;
            if (hmac && (k == 0 || r.coin())) {
                md = r.pick(MDS);
                bool early = r.chance(30);
                (early ? pd : p).utf8(OSSL_MAC_PARAM_DIGEST, md);
                if (early && EVP_MAC_CTX_set_params(xa, pd.end()) != 1)
                    viol("set-digest", "HMAC refuses %s", md);
            }
        }
        trace("%s init key %s %zu bytes, handle %" PRIu64 " delete %d%s", name, !newkey ? "kept" : form == 0 ? "raw" : form == 1 ? "handle at init" : "handle set before",
                key.size(), (uint64_t) h, p.del, hmac ? md : "");
        if (hmac)
            pb.utf8(OSSL_MAC_PARAM_DIGEST, md);
        else
            pb.utf8(OSSL_MAC_PARAM_CIPHER, key.size() == 16 ? "AES-128-CBC" : "AES-256-CBC");
        GBuf kb(key);
        const OSSL_PARAM* pp = p.v.empty() ? nullptr : p.end();
        int ra = 1;
        if (newkey && form == 2 && pp) {
            ra = EVP_MAC_CTX_set_params(xa, pp);
            pp = nullptr;
        }
        if (ra == 1)
            ra = EVP_MAC_init(xa, newkey && form == 0 ? kb.p : nullptr, newkey && form == 0 ? kb.n : 0, pp);
        if (refuse) {
            if (ra == 1)
                viol("bad-key-accepted", "%s took a key of %zu bytes, or none", name, key.size());
            cov("mac-bad-key");
            break;
        }
        HCHECK(EVP_MAC_init(xb, key.data(), key.size(), pb.end()) == 1);
        if (ra != 1)
            viol("init", "%s init refused", name);
        if (EVP_MAC_CTX_get_mac_size(xa) != EVP_MAC_CTX_get_mac_size(xb) || EVP_MAC_CTX_get_block_size(xa) != EVP_MAC_CTX_get_block_size(xb))
            viol("mac-size", "%s: size %zu and block %zu, OpenSSL's %zu and %zu", name, EVP_MAC_CTX_get_mac_size(xa), EVP_MAC_CTX_get_block_size(xa),
                    EVP_MAC_CTX_get_mac_size(xb), EVP_MAC_CTX_get_block_size(xb));
        Bytes msg = r.bytes(r.len(500));
        size_t at = 0;
        bool abandon = r.chance(15);
        auto pieces = cuts(r, msg.size());
        for (size_t m : pieces) {
            if (abandon && r.chance(30))
                break;
            GBuf in(Bytes(msg.begin() + (long) at, msg.begin() + (long) (at + m)));
            at += m;
            HCHECK(EVP_MAC_update(xb, in.p, m) == 1);
            if (EVP_MAC_update(xa, in.p, m) != 1)
                viol("update", "%s: an update of %zu bytes refused", name, m);
            GUARDS(in, "an update");
        }
        if (abandon) {
            cov("mac-abandoned");
            continue;
        }
        size_t la = 0, lb = 0;
        if (r.coin()) {
            HCHECK(EVP_MAC_final(xb, nullptr, &lb, 0) == 1);
            if (EVP_MAC_final(xa, nullptr, &la, 0) != 1 || la != lb)
                viol("size-query", "%s: %zu bytes asked for, OpenSSL %zu", name, la, lb);
        }
        Bytes tb(64);
        HCHECK(EVP_MAC_final(xb, tb.data(), &lb, 64) == 1);
        tb.resize(lb);
        if (r.chance(10)) {
            GBuf small(r.below(lb));
            if (EVP_MAC_final(xa, small.p, &la, small.n) == 1)
                viol("short-room", "%s: delivered into %zu bytes", name, small.n);
            GUARDS(small, "the final call");
            if (r.coin())
                continue;
        }
        GBuf out(lb + (r.coin() ? 0 : r.below(20)));
        if (EVP_MAC_final(xa, out.p, &la, out.n) != 1 || la != lb || out.get(0, lb) != tb)
            viol("mac", "%s: %s, OpenSSL's %s", name, hex(out.get()).c_str(), hex(tb).c_str());
        GUARDS(out, "the final call");
        cov(strf("mac:%s:%s", name, hmac ? md : key.size() == 16 ? "128" : "256"));
        nontrivial(hash_bytes(name, 4, mix64(msg.size() * 64 + pieces.size(), key.size() * 100 + (uint64_t) form)));
    }
    xa.set(nullptr);
    cov("flow:mac");
}
// ---------------------------------------------------------------- digests
std::string names(const OSSL_PARAM* p) {
    std::string s;
    for (; p && p->key; p++)
        s += strf("%s ", p->key);
    return s;
}
void flow_digest(Ctx&, Rng& r) {
    const char* name = r.pick(MDS);
    Md da(EVP_MD_fetch(L, name, nullptr)), db(EVP_MD_fetch(nullptr, name, nullptr));
    if (!da)
        viol("fetch", "no %s", name);
    if (EVP_MD_get_size(da) != EVP_MD_get_size(db) || EVP_MD_get_block_size(da) != EVP_MD_get_block_size(db) ||
            names(EVP_MD_gettable_params(da)) != names(EVP_MD_gettable_params(db)))
        viol("digest-params", "%s: size or block size differ", name);
    struct State {
        MdCtx x{EVP_MD_CTX_new()};
        Bytes data;
        bool open = false;
    };
    std::vector<std::unique_ptr<State>> v;
    v.push_back(std::make_unique<State>());
    for (size_t i = r.range(4, 20); i > 0; i--) {
        State& s = *v[r.below(v.size())];
        if (!s.open || r.chance(8)) {
            if (EVP_DigestInit_ex2(s.x, s.open && r.coin() ? nullptr : (EVP_MD*) da, nullptr) != 1)
                viol("init", "%s init refused", name);
            if (names(EVP_MD_CTX_settable_params(s.x)) != names(EVP_MD_settable_ctx_params(db)) ||
                    names(EVP_MD_CTX_gettable_params(s.x)) != names(EVP_MD_gettable_ctx_params(db)))
                viol("digest-params", "%s: settable or gettable parameters differ", name);
            s.open = true;
            s.data.clear();
        }
        switch (r.below(4)) {
            case 0:
            case 1: {
                GBuf in(r.bytes(r.len(300)));
                if (EVP_DigestUpdate(s.x, in.p, in.n) != 1)
                    viol("update", "%s: an update of %zu bytes refused", name, in.n);
                GUARDS(in, "an update");
                app(s.data, in.get());
                break;
            }
            case 2: {
                if (v.size() > 4)
                    break;
                auto d = std::make_unique<State>();
                if (EVP_MD_CTX_copy_ex(d->x, s.x) != 1)
                    viol("copy", "%s: copy refused", name);
                d->open = true;
                d->data = s.data;
                v.push_back(std::move(d));
                cov("digest-copied");
                break;
            }
            case 3: {
                GBuf out((size_t) EVP_MD_get_size(db));
                unsigned l = 0;
                Bytes ref(64);
                unsigned lb = 0;
                HCHECK(EVP_Digest(s.data.data(), s.data.size(), ref.data(), &lb, db, nullptr) == 1);
                ref.resize(lb);
                if (EVP_DigestFinal_ex(s.x, out.p, &l) != 1 || l != lb || out.get() != ref)
                    viol("digest", "%s of %zu bytes: %s, OpenSSL's %s", name, s.data.size(), hex(out.get()).c_str(), hex(ref).c_str());
                GUARDS(out, "the final call");
                s.open = false;
                cov(strf("digest:%s", name));
                nontrivial(hash_bytes(name, strlen(name), s.data.size() * 8 + v.size()));
            }
        }
    }
    cov("flow:digest");
}
// ---------------------------------------------------------------- KDFs
Bytes kdf_ref(const char* name, const Bytes& key, const char* md, const Bytes& salt, const Bytes& info, bool sep, bool l, size_t n) {
    if (!strcmp(name, "KBKDF")) {   // the TA's CMAC KDF; OpenSSL's differs, see flow_kbkdf
        Bytes other = salt;
        if (sep)
            other.push_back(0);
        app(other, info);
        if (l)
            app(other, {0, 0, (uint8_t) (n >> 8), (uint8_t) n});
        return ref_cmac_kdf(key, other, 1, n);
    }
    Kdf k(EVP_KDF_fetch(nullptr, name, nullptr));
    KdfCtx x(EVP_KDF_CTX_new(k));
    Params p;
    p.oct(OSSL_KDF_PARAM_KEY, key);
    p.utf8(OSSL_KDF_PARAM_DIGEST, md);
    p.oct(OSSL_KDF_PARAM_SALT, salt);
    p.oct(OSSL_KDF_PARAM_INFO, info);
    Bytes out(n);
    HCHECK(EVP_KDF_derive(x, out.data(), n, p.end()) == 1);
    return out;
}
void flow_kdf(Ctx& c, Rng& r) {
    const char* name = r.pick({"HKDF", "SSKDF", "X963KDF", "KBKDF"});
    bool cmac = !strcmp(name, "KBKDF");
    const char* alias = !r.chance(30) ? name : !strcmp(name, "SSKDF") ? "CONCAT" : !strcmp(name, "X963KDF") ? "ANSI_X963" : cmac ? "CMAC" : name;
    Handles hs(c);
    Finally fin{[&] { hs.settle(); }};
    Kdf ka(EVP_KDF_fetch(L, alias, nullptr));
    if (!ka)
        viol("fetch", "no %s", alias);
    struct State {
        KdfCtx x{nullptr};
        bool key = false, lent = false;
        Bytes mat;
        const char* md = nullptr;
        Bytes salt, info;
        int sep = 0, l = 0;
    };
    std::vector<std::unique_ptr<State>> v;
    Finally gone{[&] { v.clear(); }};
    v.push_back(std::make_unique<State>());
    v[0]->x.set(EVP_KDF_CTX_new(ka));
    sa_key lent = INVALID_HANDLE;
    Bytes lentmat;
    for (size_t i = r.range(4, 14); i > 0; i--) {
        State& s = *v[r.below(v.size())];
        int what = (int) r.below(10);
        Params p;
        uint64_t unused = 0;
        (void) unused;
        Bytes hb(sizeof(sa_key));
        std::string log;
        int sep, l;
        bool refuse = false;
        auto fill = [&](bool all) {
            if (all || r.chance(40)) {
                int d = r.chance(30) ? (int) r.below(2) : -1;
                sa_key h;
                if (lent != INVALID_HANDLE && d != 1 && r.chance(40)) {
                    h = lent;
                    s.mat = lentmat;
                } else {
                    Bytes m = r.bytes(cmac ? (r.coin() ? 16 : 32) : r.range(16, 100));
                    h = new_sym(c, m);
                    hs.add(h, d == 1, m);
                    s.mat = m;
                    if (d != 1)
                        lent = h, lentmat = m;
                }
                if (r.coin()) {
                    memcpy(hb.data(), &h, sizeof h);
                    p.oct(OSSL_KDF_PARAM_KEY, hb);
                    if (d >= 0) {
                        p.del = d;
                        p.v.push_back(OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &p.del));
                    }
                } else
                    p.sa(h, d);
                s.key = true;
                s.lent = d != 1;
                log += strf(" key %" PRIu64 " delete %d", (uint64_t) h, d);
            }
            if (!cmac && (all || r.chance(40))) {
                s.md = r.pick(MDS);
                p.utf8(OSSL_KDF_PARAM_DIGEST, s.md);
                log += strf(" %s", s.md);
            }
            if (r.chance(cmac || !strcmp(name, "HKDF") ? 40 : 10)) {   // the others have no use for a salt
                s.salt = r.bytes(r.len(60));
                p.oct(OSSL_KDF_PARAM_SALT, s.salt);
                log += strf(" salt %zu", s.salt.size());
            }
            if (r.chance(60)) {
                s.info = r.bytes(r.len(60));
                p.oct(OSSL_KDF_PARAM_INFO, s.info);
                log += strf(" info %zu", s.info.size());
            }
            if (cmac && r.chance(40)) {
                sep = s.sep = (int) r.below(2);
                p.v.push_back(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_SEPARATOR, &sep));
            }
            if (cmac && r.chance(40)) {
                l = s.l = (int) r.below(2);
                p.v.push_back(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_L, &l));
            }
        };
        if (what < 2) {
            fill(r.coin());
            trace("%s set%s", name, log.c_str());
            if (EVP_KDF_CTX_set_params(s.x, p.end()) != 1)
                viol("set-params", "%s refuses%s", name, log.c_str());
        } else if (what == 2) {
            EVP_KDF_CTX_reset(s.x);
            trace("%s reset", name);
            s.key = false;
            s.md = nullptr;
            s.salt.clear();
            s.info.clear();
            s.sep = s.l = 0;
            cov("kdf-reset");
        } else if (what == 3 && v.size() < 4) {
            auto d = std::make_unique<State>();
            d->x.set(EVP_KDF_CTX_dup(s.x));
            trace("%s dup", name);
            if (!d->x)
                viol("dup", "%s: dup refused", name);
            d->key = s.key, d->lent = s.lent, d->mat = s.mat, d->md = s.md, d->salt = s.salt, d->info = s.info, d->sep = s.sep, d->l = s.l;
            v.push_back(std::move(d));
            cov("kdf-duplicated");
        } else if (what == 4 && v.size() > 1) {
            v.pop_back();
            trace("%s free", name);
            continue;
        } else if (what == 5) {
            // a handle that is none
            uint8_t bad[8];
            r.fill(bad, 8);
            Params q;
            size_t n = r.coin() ? 8 : r.below(8);
            q.v.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, bad, n));
            if (EVP_KDF_CTX_set_params(s.x, q.end()) == 1)
                viol("bad-key-accepted", "%s took %zu random bytes as a key handle", name, n);
            cov("kdf-bad-key");
        } else {
            bool with = r.coin();
            if (with)
                fill(r.chance(70));
            size_t n = cmac ? r.chance(10) ? r.range(1, 80) : 16 * r.range(1, 4) : r.chance(10) ? r.range(1, 20) : r.chance(10) ? r.range(500, 520) : r.range(16, 200);
            size_t have = s.info.size() + s.salt.size() + (size_t) (s.sep + s.l);
            refuse = !s.key || (!cmac && !s.md);
            GBuf out(n);
            trace("%s derive %zu%s%s", name, n, with ? "" : " without parameters", log.c_str());
            int rc = EVP_KDF_derive(s.x, out.p, n, with ? p.end() : nullptr);
            GUARDS(out, "deriving a key");
            if (rc != 1) {
                // lengths and parameters the TA does not take
                if (!refuse && n >= 16 && n <= 512 && !(cmac && (have == 0 || n % 16 || n > 64)))
                    viol("derive", "%s of %zu bytes from a key of %zu refused", name, n, s.mat.size());
                cov(strf("kdf:%s:refused", name));
                continue;
            }
            if (n < sizeof(sa_key))
                viol("derive-room", "%s: a handle delivered into %zu bytes", name, n);
            sa_key h;
            memcpy(&h, out.p, sizeof h);
            if (refuse)
                viol("derive-unset", "%s derived without a key or digest", name);
            Bytes ref = kdf_ref(name, s.mat, s.md, s.salt, s.info, s.sep, s.l, n);
            std::string why;
            if (!sym_matches(c.s, h, ref, &why))
                viol("kdf", "%s derives another key than OpenSSL: %s", name, why.c_str());
            w_in_call = true;
            if (SX(key_release, h) != SA_STATUS_OK)
                viol("derived-release", "the derived key cannot be released");
            cov(strf("kdf:%s", name));
            nontrivial(hash_bytes(name, strlen(name), n * 4096 + s.salt.size() * 64 + s.info.size()));
        }
        if (r.chance(20))
            EVP_KDF_CTX_get_kdf_size(s.x);
    }
    cov("flow:kdf");
}
// ---------------------------------------------------------------- key pairs
typedef Own<EVP_KEYMGMT, EVP_KEYMGMT_free> KeyMgmt;
enum Kind { RSA_, EC_, X25519_, X448_, ED25519_, ED448_, DH_ };
const char* const KIND_NAME[] = {"RSA", "EC", "X25519", "X448", "ED25519", "ED448", "DH"};
struct Pair {
    PKey a, b;        // behind the provider, plain
    Kind kind = RSA_;
    sa_elliptic_curve curve = SA_ELLIPTIC_CURVE_NIST_P256;
    bool priv = true;   // b has the private key as well
    std::string what;
};
Kind kind_of(sa_elliptic_curve cv) {
    switch (cv) {
        case SA_ELLIPTIC_CURVE_X25519: return X25519_;
        case SA_ELLIPTIC_CURVE_X448: return X448_;
        case SA_ELLIPTIC_CURVE_ED25519: return ED25519_;
        case SA_ELLIPTIC_CURVE_ED448: return ED448_;
        default: return EC_;
    }
}
EVP_PKEY* pkey_from_pub(const Bytes& der) {
    const uint8_t* p = der.data();
    EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, (long) der.size());
    HCHECK(k);
    return k;
}
// fromdata in the provider
int from_data(const char* name, EVP_PKEY** k, int sel, const OSSL_PARAM* p) {
    PCtx x(EVP_PKEY_CTX_new_from_name(L, name, nullptr));
    if (!x)
        viol("fetch", "no %s keys", name);
    HCHECK(EVP_PKEY_fromdata_init(x) == 1);
    return EVP_PKEY_fromdata(x, k, sel, (OSSL_PARAM*) p);
}
struct Made {   // a key before it is given to the provider
    Kind kind = RSA_;
    sa_elliptic_curve curve = SA_ELLIPTIC_CURVE_NIST_P256;
    std::shared_ptr<EVP_PKEY> pkey;   // with the private key
    EKey ek;
    size_t bits = 0;
};
Made make_key_of(Rng& r, Kind kind) {
    Made m;
    m.kind = kind;
    if (kind == RSA_) {
        m.bits = r.chance(80) ? 128 : 256;
        m.ek = rsa_pool(m.bits, r.below(rsa_pool_count(m.bits)));
    } else {
        do
            m.curve = r.pick(curves_all());
        while (kind_of(m.curve) != kind);
        m.ek = ec_generate(r, m.curve);
    }
    if (kind == RSA_)
        HCHECK(EVP_PKEY_up_ref(m.ek.pkey) == 1);
    m.pkey.reset(m.ek.pkey, EVP_PKEY_free);
    return m;
}
sa_key import_made(Ctx& c, const Made& m) {
    sa_key h = m.kind == RSA_ ? must_rsa(c.s, m.ek) : must_ec(c.s, m.ek);
    w_in_call = true;
    return h;
}
Bytes pub_of(EVP_PKEY* k) {
    int n = i2d_PUBKEY(k, nullptr);
    if (n <= 0)
        return {};
    Bytes b((size_t) n);
    uint8_t* p = b.data();
    HCHECK(i2d_PUBKEY(k, &p) == n);
    return b;
}
// one key of a kind behind the provider and the same plainly; the handles go to hs
void make_pair(Ctx& c, Rng& r, Handles& hs, Kind kind, Pair& o) {
    o.kind = kind;
    int form = kind == DH_ ? (int) r.range(3, 5) : (int) r.below(kind == RSA_ && !r.chance(12) ? 3 : 5);   // RSA keys take long to make
    if (form == 2 && kind == ED448_)
        form = 1;   // d2i_AutoPrivateKey_ex makes a plain key first and needs SHAKE256, which the library context has not
    static const char* const FORM[] = {"a handle", "raw", "PKCS#8", "generated", "generated twice", "a handle of a DH key"};
    if (form <= 2) {
        Made m = make_key_of(r, kind);
        o.curve = m.curve;
        HCHECK(EVP_PKEY_up_ref(m.pkey.get()) == 1);
        o.b.set(m.pkey.get());
        if (form == 0) {
            int d = (int) r.below(3) - 1;
            sa_key h = import_made(c, m);
            hs.add(h, d == 1);
            Params p;
            p.sa(h, d);
            if (from_data(KIND_NAME[kind], &o.a, EVP_PKEY_KEYPAIR, p.end()) != 1)
                viol("fromdata", "%s: the handle of a key refused", KIND_NAME[kind]);
        } else if (form == 1) {
            OSSL_PARAM* q = nullptr;
            HCHECK(EVP_PKEY_todata(o.b, EVP_PKEY_KEYPAIR, &q) == 1);
            int rc = from_data(KIND_NAME[kind], &o.a, EVP_PKEY_KEYPAIR, q);
            OSSL_PARAM_free(q);
            if (rc != 1)
                viol("fromdata", "%s: a raw key refused", KIND_NAME[kind]);
        } else {
            const uint8_t* p = m.ek.priv.data();
            o.a.set(d2i_AutoPrivateKey_ex(nullptr, &p, (long) m.ek.priv.size(), L, nullptr));
            if (!o.a)
                viol("fromdata", "%s: PKCS#8 refused", KIND_NAME[kind]);
        }
    } else {
        o.priv = false;
        if (form == 5) {
            DhGroup const& g = dh_group();
            sa_rights rt = rights_all();
            sa_generate_parameters_dh gp = {g.p.data(), g.p.size(), g.g.data(), g.g.size()};
            sa_key h;
            HCHECK(SX(key_generate, &h, &rt, SA_KEY_TYPE_DH, &gp) == SA_STATUS_OK);
            int d = (int) r.below(3) - 1;
            hs.add(h, d == 1);
            Params p;
            p.sa(h, d);
            if (from_data("DH", &o.a, EVP_PKEY_KEYPAIR, p.end()) != 1)
                viol("fromdata", "the handle of a DH key refused");
        } else {
            PCtx x;
            Params p;
            size_t bits = r.chance(85) ? 1024 : 2048;
            const char* group = nullptr;
            PKey tmpl;
            if (kind == RSA_) {
                p.v.push_back(OSSL_PARAM_construct_size_t(OSSL_PKEY_PARAM_RSA_BITS, &bits));
            } else if (kind == DH_) {
                DhGroup const& g = dh_group();
                // OpenSSL's numbers are in the order of the machine; the provider takes the octets of P and G as if they were
                // such numbers, as its tests pin (flow_dh_order)
                Bytes pp = g.p, gg = g.g;
                if (r.chance(60)) {
                    OSSL_PARAM q[] = {OSSL_PARAM_construct_BN(OSSL_PKEY_PARAM_FFC_P, pp.data(), pp.size()),
                            OSSL_PARAM_construct_BN(OSSL_PKEY_PARAM_FFC_G, gg.data(), gg.size()), OSSL_PARAM_construct_end()};
                    if (from_data("DH", &tmpl, EVP_PKEY_KEY_PARAMETERS, q) != 1)
                        viol("fromdata", "DH parameters refused");
                    o.what = "DH template ";
                }
            } else {
                do
                    o.curve = r.pick(curves_all());
                while (kind_of(o.curve) != kind);
                group = curve_name(o.curve);
                if (kind == EC_ || r.coin())
                    p.utf8(OSSL_PKEY_PARAM_GROUP_NAME, group);
            }
            if (tmpl)
                x.set(EVP_PKEY_CTX_new_from_pkey(L, tmpl, nullptr));
            else
                x.set(EVP_PKEY_CTX_new_from_name(L, KIND_NAME[kind], nullptr));
            if (!x)
                viol("fetch", "no %s keys", KIND_NAME[kind]);
            for (int i = 0; i < (form == 4 ? 2 : 1); i++) {
                if (i == 0) {
                    if (EVP_PKEY_keygen_init(x) != 1)
                        viol("keygen", "%s: keygen_init", KIND_NAME[kind]);
                    if (!p.v.empty() && EVP_PKEY_CTX_set_params(x, p.end()) != 1)
                        viol("keygen", "%s %s: parameters refused", KIND_NAME[kind], group ? group : "");
                }
                o.a.set(nullptr);
                if (EVP_PKEY_generate(x, &o.a) != 1)
                    viol("keygen", "%s %s: no key generated", KIND_NAME[kind], group ? group : "");
            }
            if (kind == RSA_ && (size_t) EVP_PKEY_get_bits(o.a) != bits)
                viol("keygen", "RSA of %zu bits asked, %d got", bits, EVP_PKEY_get_bits(o.a));
            if (kind == DH_ && tmpl) {
                Bytes want = dh_group().p;
                BIGNUM* bp = nullptr;
                if (EVP_PKEY_get_bn_param(o.a, OSSL_PKEY_PARAM_FFC_P, &bp) != 1)
                    viol("keygen", "no p in the DH key");
                Bytes got((size_t) BN_num_bytes(bp));
                BN_bn2bin(bp, got.data());
                BN_free(bp);
                if (got != want)
                    viol("keygen-template", "the DH key generated from a template has another group");
                cov("key:dh-template");
            }
            if (kind == EC_) {
                char nm[60];
                size_t l = 0;
                int nid = EVP_PKEY_get_group_name(o.a, nm, sizeof nm, &l) == 1 ? OBJ_sn2nid(nm) : 0;
                int want = OBJ_txt2nid(group);
                if (want == NID_undef)
                    want = EC_curve_nist2nid(group);
                if (nid == NID_undef)
                    nid = EC_curve_nist2nid(nm);
                if (nid != want)
                    viol("keygen", "%s asked, %s generated", group, nm);
            }
        }
        o.b.set(pkey_from_pub(pub_of(o.a)));
    }
    o.what += strf("%s %s", kind == EC_ ? curve_name(o.curve) : KIND_NAME[kind], FORM[form]);
    cov(strf("key:%s:%s", KIND_NAME[kind], FORM[form]));
    trace("key %s", o.what.c_str());
}
// what a key shows of itself: as the plain one
void same_key(Pair& k) {
    if (pub_of(k.a) != pub_of(k.b))
        viol("public", "%s: the public key written out is another one", k.what.c_str());
    if (EVP_PKEY_get_bits(k.a) != EVP_PKEY_get_bits(k.b) || EVP_PKEY_get_size(k.a) != EVP_PKEY_get_size(k.b) ||
            EVP_PKEY_get_security_bits(k.a) != EVP_PKEY_get_security_bits(k.b))
        viol("key-params", "%s: %d bits, size %d, security %d; the plain key %d, %d, %d", k.what.c_str(), EVP_PKEY_get_bits(k.a), EVP_PKEY_get_size(k.a),
                EVP_PKEY_get_security_bits(k.a), EVP_PKEY_get_bits(k.b), EVP_PKEY_get_size(k.b), EVP_PKEY_get_security_bits(k.b));
    if (!EVP_PKEY_is_a(k.a, KIND_NAME[k.kind]))
        viol("key-params", "%s is not %s", k.what.c_str(), KIND_NAME[k.kind]);
}
void flow_keys(Ctx& c, Rng& r) {
    Handles hs(c);
    Finally fin{[&] { hs.settle(); }};
    Kind kind = (Kind) r.below(7);
    Pair k;
    make_pair(c, r, hs, kind, k);
    same_key(k);
    if (EVP_PKEY_eq(k.a, k.a) != 1 || EVP_PKEY_parameters_eq(k.a, k.a) != 1)
        viol("eq", "%s differs from itself", k.what.c_str());
    // two objects of one key, two keys
    {
        Pair o;
        Kind k2 = r.chance(70) ? kind : (Kind) r.below(7);
        make_pair(c, r, hs, k2, o);
        bool same = pub_of(k.a) == pub_of(o.a);
        int got = EVP_PKEY_eq(k.a, o.a);
        if ((got == 1) != same)
            viol("eq", "%s and %s are %s keys; EVP_PKEY_eq says %d", k.what.c_str(), o.what.c_str(), same ? "the same" : "different", got);
        cov(same ? "eq-same" : "eq-different");
        if (k.kind != DH_) {
            int pa = EVP_PKEY_parameters_eq(k.a, o.a), pb = EVP_PKEY_parameters_eq(k.b, o.b);
            if ((pa == 1) != (pb == 1))
                viol("eq-parameters", "%s and %s: %d, the plain keys %d", k.what.c_str(), o.what.c_str(), pa, pb);
        }
    }
    {   // with the plain key
        PKey pub(pkey_from_pub(pub_of(k.b)));
        int got = EVP_PKEY_eq(k.a, pub);
        if (got != 1)
            viol("eq-plain", "%s: EVP_PKEY_eq with the plain public key says %d", k.what.c_str(), got);
    }
    // the public key alone
    if (kind != DH_) {
        PKey pub;
        OSSL_PARAM* q = nullptr;
        HCHECK(EVP_PKEY_todata(k.b, EVP_PKEY_PUBLIC_KEY, &q) == 1);
        int rc = from_data(KIND_NAME[kind], &pub, EVP_PKEY_PUBLIC_KEY, q);
        OSSL_PARAM_free(q);
        if (rc != 1)
            viol("fromdata-public", "%s: a public key refused", k.what.c_str());
        if (pub_of(pub) != pub_of(k.b))
            viol("public", "%s: a public key imported alone is another one", k.what.c_str());
        if (EVP_PKEY_eq(pub, k.a) != 1)
            viol("eq-public", "%s differs from its public key alone", k.what.c_str());
        cov("key-public-only");
    }
    if (r.coin()) {
        PKey d(EVP_PKEY_dup(k.a));
        if (!d || EVP_PKEY_eq(d, k.a) != 1)
            viol("key-dup", "%s: a duplicate is another key", k.what.c_str());
        if (r.coin()) {
            k.a.set(nullptr);
            k.a.set(d.take());
            same_key(k);
        }
        cov("key-duplicated");
    }
    if (r.coin()) {   // writing the key out
        OSSL_PARAM* q = nullptr;
        if (EVP_PKEY_todata(k.a, EVP_PKEY_PUBLIC_KEY, &q) != 1)
            viol("todata", "%s: the public key cannot be exported", k.what.c_str());
        for (const char* bad : {OSSL_PKEY_PARAM_PRIV_KEY, OSSL_PKEY_PARAM_RSA_D, OSSL_PKEY_PARAM_RSA_FACTOR1})
            if (OSSL_PARAM_locate(q, bad))
                viol("todata-private", "%s: %s exported", k.what.c_str(), bad);
        OSSL_PARAM_free(q);
    }
    // what is no such key
    if (r.chance(60)) {
        PKey bad;
        Params p;
        std::string how;
        int what = (int) r.below(3);
        const char* name = KIND_NAME[kind];
        if (what == 0) {
            p.sa(r.coin() ? INVALID_HANDLE : 77777, (int) r.below(3) - 1);
            how = "no handle";
        } else if (what == 1) {
            Bytes m = r.bytes(16);
            sa_key h = new_sym(c, m);
            hs.add(h, false, m);
            p.sa(h, (int) r.below(2) - 1);
            how = "the handle of a symmetric key";
        } else {
            Kind k2;
            do
                k2 = (Kind) r.below(6);
            while (k2 == kind);
            Made m = make_key_of(r, k2);
            sa_key h = import_made(c, m);
            hs.add(h, false);
            p.sa(h, (int) r.below(2) - 1);
            how = strf("the handle of a %s key", KIND_NAME[k2]);
        }
        trace("%s from %s", name, how.c_str());
        if (from_data(name, &bad, EVP_PKEY_KEYPAIR, p.end()) == 1)
            viol("bad-key-accepted", "%s made from %s", name, how.c_str());
        cov("key-refused");
    }
    if (kind == DH_ && r.coin()) {   // groups larger than any the library takes
        Bytes pp = r.bytes(r.range(500, 700)), gg = r.bytes(r.chance(50) ? 1 : r.range(500, 700));
        pp.back() |= 0x80;
        pp[0] |= 1;
        OSSL_PARAM q[] = {OSSL_PARAM_construct_BN(OSSL_PKEY_PARAM_FFC_P, pp.data(), pp.size()),
                OSSL_PARAM_construct_BN(OSSL_PKEY_PARAM_FFC_G, gg.data(), gg.size()), OSSL_PARAM_construct_end()};
        PKey t;
        int rc = from_data("DH", &t, EVP_PKEY_KEY_PARAMETERS, q);
        if (rc == 1 && (pp.size() > 512 || gg.size() > 512))
            viol("bad-key-accepted", "a DH group of %zu and %zu bytes taken", pp.size(), gg.size());
        cov("key-dh-large");
    }
    if ((kind == EC_ || kind >= X25519_) && r.chance(30)) {   // names of other groups
        const char* g = r.pick(std::vector<const char*>{"P-256", "X25519", "X448", "ED25519", "ED448", "prime256v1", "P-999", ""});
        bool fits = kind == EC_ ? !strcmp(g, "P-256") || !strcmp(g, "prime256v1") : kind == DH_ ? false : !strcmp(g, KIND_NAME[kind]);
        PCtx x(EVP_PKEY_CTX_new_from_name(L, KIND_NAME[kind], nullptr));
        HCHECK(EVP_PKEY_keygen_init(x) == 1);
        Params p;
        p.utf8(OSSL_PKEY_PARAM_GROUP_NAME, g);
        PKey k2;
        int ok = EVP_PKEY_CTX_set_params(x, p.end()) == 1 && EVP_PKEY_generate(x, &k2) == 1;
        trace("%s generated with group %s: %d", KIND_NAME[kind], g, ok);
        if (ok != fits)
            viol("keygen-group", "%s with group \"%s\" %s", KIND_NAME[kind], g, ok ? "generated" : "refused");
        cov("keygen-group");
    }
    nontrivial(hash_bytes(k.what.data(), k.what.size(), (uint64_t) kind));
    cov("flow:keys");
}
// ---------------------------------------------------------------- signatures
struct SigCfg {
    const char* md = nullptr;   // none for ED25519 and ED448
    const char* mgf = nullptr;
    bool pss = false;
    int salt = 0;   // a length, RSA_PSS_SALTLEN_DIGEST or RSA_PSS_SALTLEN_MAX
    std::string str() const { return strf("%s%s mgf1 %s salt %d", md ? md : "", pss ? " PSS" : "", mgf ? mgf : "-", salt); }
};
SigCfg sig_cfg(Rng& r, const Pair& k) {
    SigCfg g;
    if (k.kind == ED25519_ || k.kind == ED448_)
        return g;
    g.md = r.pick(MDS);
    if (k.kind == RSA_ && r.chance(60)) {
        g.pss = true;
        if (r.coin())
            g.mgf = r.pick(MDS);
        int room = EVP_PKEY_get_size(k.b) - (int) EVP_MD_get_size(EVP_get_digestbyname(g.md)) - 2;
        if (room < 0)
            g.md = "SHA256", room = EVP_PKEY_get_size(k.b) - 34;
        g.salt = r.chance(30) ? RSA_PSS_SALTLEN_DIGEST : r.chance(30) ? RSA_PSS_SALTLEN_MAX : (int) r.below((uint64_t) room + 1);
        if (g.salt == RSA_PSS_SALTLEN_DIGEST && EVP_MD_get_size(EVP_get_digestbyname(g.md)) > room)
            g.salt = RSA_PSS_SALTLEN_MAX;
    }
    return g;
}
// the padding of a configuration, set in one of the ways there are
bool sig_set(Rng& r, EVP_PKEY_CTX* x, const SigCfg& g, bool verify) {
    if (!g.pss)
        return r.coin() || EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING) == 1;
    if (r.coin()) {
        if (EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING) != 1 || EVP_PKEY_CTX_set_rsa_pss_saltlen(x, g.salt) != 1)
            return false;
        return !g.mgf || EVP_PKEY_CTX_set_rsa_mgf1_md_name(x, g.mgf, nullptr) == 1;
    }
    Params p;
    int salt = g.salt;
    p.utf8(OSSL_SIGNATURE_PARAM_PAD_MODE, OSSL_PKEY_RSA_PAD_MODE_PSS);
    std::string n = salt == RSA_PSS_SALTLEN_DIGEST ? "digest" : salt == RSA_PSS_SALTLEN_MAX ? "max" : strf("%d", salt);
    if (r.coin())
        p.utf8(OSSL_SIGNATURE_PARAM_PSS_SALTLEN, n.c_str());
    else
        p.v.push_back(OSSL_PARAM_construct_int(OSSL_SIGNATURE_PARAM_PSS_SALTLEN, &salt));
    if (g.mgf)
        p.utf8(OSSL_SIGNATURE_PARAM_MGF1_DIGEST, g.mgf);
    return EVP_PKEY_CTX_set_params(x, p.end()) == 1;
}
Bytes digest_of(const char* md, const Bytes& m) {
    Bytes d(64);
    unsigned n = 0;
    HCHECK(EVP_Digest(m.data(), m.size(), d.data(), &n, EVP_get_digestbyname(md), nullptr) == 1);
    d.resize(n);
    return d;
}
// plain OpenSSL signs or verifies
Bytes plain_sign(Rng& r, EVP_PKEY* k, const SigCfg& g, const Bytes& m) {
    MdCtx x(EVP_MD_CTX_new());
    EVP_PKEY_CTX* px = nullptr;
    HCHECK(EVP_DigestSignInit_ex(x, &px, g.md, nullptr, nullptr, k, nullptr) == 1);
    if (EVP_PKEY_get_base_id(k) == EVP_PKEY_RSA)
        HCHECK(sig_set(r, px, g, false));
    size_t n = 0;
    HCHECK(EVP_DigestSign(x, nullptr, &n, m.data(), m.size()) == 1);
    Bytes s(n);
    HCHECK(EVP_DigestSign(x, s.data(), &n, m.data(), m.size()) == 1);
    s.resize(n);
    return s;
}
bool plain_verify(Rng& r, EVP_PKEY* k, const SigCfg& g, const Bytes& m, const Bytes& s) {
    MdCtx x(EVP_MD_CTX_new());
    EVP_PKEY_CTX* px = nullptr;
    HCHECK(EVP_DigestVerifyInit_ex(x, &px, g.md, nullptr, nullptr, k, nullptr) == 1);
    if (EVP_PKEY_get_base_id(k) == EVP_PKEY_RSA)
        HCHECK(sig_set(r, px, g, true));
    return EVP_DigestVerify(x, s.data(), s.size(), m.data(), m.size()) == 1;
}
void check_sig(Rng& r, const Pair& k, const SigCfg& g, const Bytes& m, const Bytes& s, const char* how) {
    Rng q(r.next());
    if (!plain_verify(q, k.b, g, m, s))
        viol("signature", "%s: OpenSSL refuses the signature of %zu bytes made by %s (%s)", k.what.c_str(), m.size(), how, g.str().c_str());
    if (k.priv && !g.pss && k.kind != EC_) {
        Bytes want = plain_sign(q, k.b, g, m);
        if (want != s)
            viol("signature", "%s: %s gives another signature than OpenSSL (%s)", k.what.c_str(), how, g.str().c_str());
    }
    cov(strf("sig:%s:%s", how, k.kind == RSA_ ? g.pss ? "RSA-PSS" : "RSA" : KIND_NAME[k.kind]));
    nontrivial(hash_bytes(k.what.data(), k.what.size(), m.size() * 64 + (uint64_t) g.salt));
}
// asks the length, tries too little room, signs
template <class F> Bytes take_sig(Rng& r, const Pair& k, const char* how, F f) {
    size_t need = 0;
    if (r.chance(80)) {
        need = r.next();
        if (f(nullptr, &need) != 1)
            viol("sig-size", "%s: %s: the size query fails", k.what.c_str(), how);
        if (need == 0 || need > 2000)
            viol("sig-size", "%s: %s: the size query gives %zu", k.what.c_str(), how, need);
    } else
        need = (size_t) EVP_PKEY_get_size(k.a);
    if (r.chance(25)) {
        size_t n = r.below(need);
        GBuf b(n);
        size_t l = n;
        int rc = f(b.p, &l);
        GUARDS(b, how);
        if (rc == 1 && (k.kind != EC_ || l > n))
            viol("sig-room", "%s: %s into %zu bytes of %zu gives a signature of %zu", k.what.c_str(), how, n, need, l);
        cov("sig-room");
        if (rc == 1) {
            Bytes s = b.get();
            s.resize(l);
            return s;
        }
    }
    size_t n = need + (r.coin() ? 0 : r.below(40));
    GBuf b(n);
    size_t l = n;
    if (f(b.p, &l) != 1)
        viol("sign", "%s: %s refused with room for %zu", k.what.c_str(), how, n);
    GUARDS(b, how);
    if (l > need)
        viol("sig-size", "%s: %s: %zu bytes announced, %zu made", k.what.c_str(), how, need, l);
    Bytes s = b.get();
    s.resize(l);
    return s;
}
void algorithm_id(EVP_PKEY_CTX* x, const Pair& k, const SigCfg& g) {
    uint8_t a[64], b[64];
    OSSL_PARAM q[] = {OSSL_PARAM_construct_octet_string(OSSL_SIGNATURE_PARAM_ALGORITHM_ID, a, sizeof a), OSSL_PARAM_construct_end()};
    OSSL_PARAM w[] = {OSSL_PARAM_construct_octet_string(OSSL_SIGNATURE_PARAM_ALGORITHM_ID, b, sizeof b), OSSL_PARAM_construct_end()};
    MdCtx m(EVP_MD_CTX_new());
    EVP_PKEY_CTX* px = nullptr;
    HCHECK(EVP_DigestVerifyInit_ex(m, &px, g.md, nullptr, nullptr, k.b, nullptr) == 1);
    HCHECK(EVP_PKEY_CTX_get_params(px, w) == 1);
    if (EVP_PKEY_CTX_get_params(x, q) != 1)
        viol("algorithm-id", "%s %s: no algorithm identifier", k.what.c_str(), g.md ? g.md : "");
    if (q[0].return_size != w[0].return_size || memcmp(a, b, w[0].return_size))
        viol("algorithm-id", "%s %s: %s; OpenSSL %s", k.what.c_str(), g.md ? g.md : "", hex(Bytes(a, a + q[0].return_size)).c_str(), hex(Bytes(b, b + w[0].return_size)).c_str());
    cov("algorithm-id");
}
void flow_sign(Ctx& c, Rng& r) {
    Handles hs(c);
    Finally fin{[&] { hs.settle(); }};
    static const Kind KS[] = {RSA_, RSA_, EC_, EC_, ED25519_, ED448_};
    Pair k;
    make_pair(c, r, hs, r.pick(KS), k);
    bool ed = k.kind == ED25519_ || k.kind == ED448_;
    MdCtx x(EVP_MD_CTX_new());
    bool copied = false;
    PCtx px(EVP_PKEY_CTX_new_from_pkey(L, k.a, nullptr));
    if (!px)
        viol("fetch", "%s: no context", k.what.c_str());
    for (int round = (int) r.range(1, 4); round > 0; round--) {
        SigCfg g = sig_cfg(r, k);
        Bytes m = r.bytes(r.len(300));
        m.reserve(1);
        trace("%s %s, %zu bytes", k.what.c_str(), g.str().c_str(), m.size());
        EVP_PKEY_CTX* dx = nullptr;
        int how = (int) r.below(4);
        if (how == 0) {   // sign a message
            if (copied || r.coin())
                EVP_MD_CTX_reset(x);
            copied = false;
            if (EVP_DigestSignInit_ex(x, &dx, g.md, L, nullptr, k.a, nullptr) != 1)
                viol("sign-init", "%s: %s refused", k.what.c_str(), g.str().c_str());
            if (k.kind == RSA_ && !sig_set(r, dx, g, false))
                viol("sign-set", "%s: %s refused", k.what.c_str(), g.str().c_str());
            if (!g.pss && r.coin())
                algorithm_id(dx, k, g);
            if (ed || r.chance(20)) {
                Bytes s = take_sig(r, k, "EVP_DigestSign", [&](uint8_t* p, size_t* n) {
                    if (!ed) {   // the message is taken in with each call
                        MdCtx t(EVP_MD_CTX_new());
                        HCHECK(EVP_MD_CTX_copy_ex(t, x) == 1);
                        return EVP_DigestSign(t, p, n, m.data(), m.size());
                    }
                    return EVP_DigestSign(x, p, n, m.data(), m.size());
                });
                check_sig(r, k, g, m, s, "EVP_DigestSign");
                continue;
            }
            size_t at = 0;
            Bytes sofar;
            MdCtx other;
            Bytes other_m;
            for (size_t l : cuts(r, m.size())) {
                if (EVP_DigestSignUpdate(x, m.data() + at, l) != 1)
                    viol("sign-update", "%s: %zu bytes refused", k.what.c_str(), l);
                app(sofar, Bytes(m.begin() + (long) at, m.begin() + (long) (at + l)));
                at += l;
                if (!other && r.chance(10)) {
                    other.set(EVP_MD_CTX_new());
                    if (EVP_MD_CTX_copy_ex(other, x) != 1)
                        viol("dup", "%s: a signing context cannot be copied", k.what.c_str());
                    other_m = sofar;
                    cov("sign-duplicated");
                }
                if (r.chance(8))
                    check_sig(r, k, g, sofar, take_sig(r, k, "EVP_DigestSignFinal midway", [&](uint8_t* p, size_t* n) { return EVP_DigestSignFinal(x, p, n); }),
                            "EVP_DigestSignFinal midway");
            }
            if (r.chance(10))
                continue;   // given up
            check_sig(r, k, g, m, take_sig(r, k, "EVP_DigestSignFinal", [&](uint8_t* p, size_t* n) { return EVP_DigestSignFinal(x, p, n); }), "EVP_DigestSignFinal");
            if (other) {
                if (r.coin())
                    EVP_MD_CTX_reset(x);
                Bytes more = r.bytes(r.len(50) + 1);
                if (EVP_DigestSignUpdate(other, more.data(), more.size()) != 1)
                    viol("sign-update", "%s: refused by a copy", k.what.c_str());
                app(other_m, more);
                check_sig(r, k, g, other_m, take_sig(r, k, "a copy", [&](uint8_t* p, size_t* n) { return EVP_DigestSignFinal(other, p, n); }), "a copy");
            }
        } else if (how == 1 && !ed) {   // sign a digest
            Bytes d = digest_of(g.md, m);
            bool wrong = r.chance(15);
            if (wrong)
                d = r.bytes(r.coin() ? d.size() + r.range(1, 40) : d.size() - 1 - r.below(d.size() - 1));
            if (EVP_PKEY_sign_init(px) != 1)
                viol("sign-init", "%s: EVP_PKEY_sign_init", k.what.c_str());
            if (EVP_PKEY_CTX_set_signature_md(px, EVP_get_digestbyname(g.md)) != 1 || (k.kind == RSA_ && !sig_set(r, px, g, false)))
                viol("sign-set", "%s: %s refused", k.what.c_str(), g.str().c_str());
            PCtx dup;
            EVP_PKEY_CTX* u = px;
            if (r.chance(30)) {
                dup.set(EVP_PKEY_CTX_dup(px));
                if (!dup)
                    viol("dup", "%s: a context for signing digests cannot be copied", k.what.c_str());
                u = dup;
                cov("sign-duplicated");
            }
            if (wrong) {
                GBuf b(600);
                size_t l = 600;
                if (EVP_PKEY_sign(u, b.p, &l, d.data(), d.size()) == 1)
                    viol("sign-wrong-digest", "%s: %zu bytes signed as a %s digest", k.what.c_str(), d.size(), g.md);
                cov("sign-wrong-digest");
                continue;
            }
            check_sig(r, k, g, m, take_sig(r, k, "EVP_PKEY_sign", [&](uint8_t* p, size_t* n) { return EVP_PKEY_sign(u, p, n, d.data(), d.size()); }), "EVP_PKEY_sign");
        } else {   // verify
            Bytes s;
            Rng q(r.next());
            if (k.priv)
                s = plain_sign(q, k.b, g, m);
            else {
                MdCtx t(EVP_MD_CTX_new());
                EVP_PKEY_CTX* tx = nullptr;
                size_t n = 600;
                s.resize(n);
                if (EVP_DigestSignInit_ex(t, &tx, g.md, L, nullptr, k.a, nullptr) != 1 || (k.kind == RSA_ && !sig_set(q, tx, g, false)) ||
                        EVP_DigestSign(t, s.data(), &n, m.data(), m.size()) != 1)
                    viol("sign", "%s: %s refused", k.what.c_str(), g.str().c_str());
                s.resize(n);
            }
            std::string alt = "as it is";
            Bytes mm = m;
            mm.reserve(1);
            bool good = true;
            SigCfg gv = g;
            if (r.coin()) {
                good = false;
                int w = (int) r.below(5);
                if (w == 0) {
                    size_t i = r.below(s.size());
                    s[i] ^= (uint8_t) (1 << r.below(8));
                    alt = "a bit of the signature";
                } else if (w == 1) {
                    s.resize(r.below(s.size()));
                    alt = "cut";
                } else if (w == 2) {
                    s.push_back((uint8_t) r.next());
                    alt = "longer";
                } else if (w == 3 && !mm.empty()) {
                    mm[r.below(mm.size())] ^= (uint8_t) (1 << r.below(8));
                    alt = "a bit of the message";
                } else if (w == 4 && g.pss && g.salt >= 0) {
                    gv.salt = g.salt == 0 ? 1 : g.salt - 1;
                    alt = "another salt length";
                } else {
                    good = true;
                }
            }
            // a flipped bit may leave the value the same: plain OpenSSL says what it is
            Rng q2(r.next());
            bool want = plain_verify(q2, k.b, gv, mm, s);
            HCHECK(!good || want);
            int got;
            GBuf sb(s);
            if (how == 2 || ed) {
                if (copied || r.coin())
                    EVP_MD_CTX_reset(x);
                copied = false;
                if (EVP_DigestVerifyInit_ex(x, &dx, g.md, L, nullptr, k.a, nullptr) != 1 || (k.kind == RSA_ && !sig_set(r, dx, gv, true)))
                    viol("verify-init", "%s: %s refused", k.what.c_str(), gv.str().c_str());
                if (ed)
                    got = EVP_DigestVerify(x, sb.p, sb.n, mm.data(), mm.size());
                else {
                    size_t at = 0;
                    for (size_t l : cuts(r, mm.size())) {
                        if (EVP_DigestVerifyUpdate(x, mm.data() + at, l) != 1)
                            viol("verify-update", "%s: %zu bytes refused", k.what.c_str(), l);
                        at += l;
                        if (r.chance(5)) {
                            MdCtx t(EVP_MD_CTX_new());
                            if (EVP_MD_CTX_copy_ex(t, x) != 1)
                                viol("dup", "%s: a verifying context cannot be copied", k.what.c_str());
                            x.set(t.take());
                            copied = true;   // OpenSSL 3.0 cannot start a copy again
                        }
                    }
                    got = EVP_DigestVerifyFinal(x, sb.p, sb.n);
                }
            } else {
                Bytes d = digest_of(g.md, mm);
                if (EVP_PKEY_verify_init(px) != 1 || EVP_PKEY_CTX_set_signature_md(px, EVP_get_digestbyname(g.md)) != 1 ||
                        (k.kind == RSA_ && !sig_set(r, px, gv, true)))
                    viol("verify-init", "%s: %s refused", k.what.c_str(), gv.str().c_str());
                got = EVP_PKEY_verify(px, sb.p, sb.n, d.data(), d.size());
            }
            trace("verify, %s: %d", alt.c_str(), got);
            if ((got == 1) != want)
                viol("verify", "%s %s, %s: OpenSSL %s it, the provider says %d", k.what.c_str(), gv.str().c_str(), alt.c_str(), want ? "takes" : "refuses", got);
            cov(want ? "verify-good" : "verify-bad");
        }
    }
    if (ed && r.chance(30)) {   // a digest ED25519 and ED448 have not
        MdCtx t(EVP_MD_CTX_new());
        if (EVP_DigestSignInit_ex(t, nullptr, "SHA256", L, nullptr, k.a, nullptr) == 1) {
            uint8_t s[200];
            size_t n = sizeof s;
            if (EVP_DigestSign(t, s, &n, (const uint8_t*) "a", 1) == 1)
                viol("sign-bad-digest", "%s signs with SHA256", k.what.c_str());
        }
        cov("sign-bad-digest");
    } else if (!ed && r.chance(30)) {
        MdCtx t(EVP_MD_CTX_new());
        EVP_PKEY_CTX* tx = nullptr;
        int ok = EVP_DigestSignInit_ex(t, &tx, r.coin() ? "NOSUCHMD" : "MD5-SHA1", L, nullptr, k.a, nullptr) == 1;
        uint8_t s[600];
        size_t n = sizeof s;
        if (ok && EVP_DigestSignUpdate(t, "a", 1) == 1 && EVP_DigestSignFinal(t, s, &n) == 1)
            viol("sign-bad-digest", "%s signs with a digest there is not", k.what.c_str());
        cov("sign-bad-digest");
    }
    cov("flow:sign");
}
// ---------------------------------------------------------------- RSA encryption
struct EncCfg {
    int pad = RSA_PKCS1_PADDING;
    const char* md = nullptr;    // null: none set, SHA1
    const char* mgf = nullptr;   // null: none set, the same
    bool lab = false;
    Bytes label;
    std::string str() const {
        return strf("%s md %s mgf1 %s label %d of %zu", pad == RSA_PKCS1_PADDING ? "PKCS1" : pad == RSA_NO_PADDING ? "none" : "OAEP", md ? md : "-", mgf ? mgf : "-", lab, label.size());
    }
    size_t overhead() const { return pad == RSA_PKCS1_PADDING ? 11 : pad == RSA_NO_PADDING ? 0 : 2 + 2 * (size_t) EVP_MD_get_size(EVP_get_digestbyname(md ? md : "SHA1")); }
};
bool enc_set(Rng& r, EVP_PKEY_CTX* x, const EncCfg& g) {
    if (r.coin()) {
        if (EVP_PKEY_CTX_set_rsa_padding(x, g.pad) != 1)
            return false;
    } else {
        Params p;
        p.utf8(OSSL_ASYM_CIPHER_PARAM_PAD_MODE, g.pad == RSA_PKCS1_PADDING ? OSSL_PKEY_RSA_PAD_MODE_PKCSV15 : g.pad == RSA_NO_PADDING ? OSSL_PKEY_RSA_PAD_MODE_NONE : OSSL_PKEY_RSA_PAD_MODE_OAEP);
        if (EVP_PKEY_CTX_set_params(x, p.end()) != 1)
            return false;
    }
    if (g.pad != RSA_PKCS1_OAEP_PADDING)
        return true;
    if (r.coin()) {
        if ((g.md && EVP_PKEY_CTX_set_rsa_oaep_md_name(x, g.md, nullptr) != 1) || (g.mgf && EVP_PKEY_CTX_set_rsa_mgf1_md_name(x, g.mgf, nullptr) != 1))
            return false;
        if (!g.lab)
            return true;
        void* l = OPENSSL_memdup(g.label.empty() ? (const void*) "" : g.label.data(), g.label.empty() ? 1 : g.label.size());
        if (EVP_PKEY_CTX_set0_rsa_oaep_label(x, l, (int) g.label.size()) == 1)
            return true;
        OPENSSL_free(l);
        return false;
    }
    Params p;
    if (g.md)
        p.utf8(OSSL_ASYM_CIPHER_PARAM_OAEP_DIGEST, g.md);
    if (g.mgf)
        p.utf8(OSSL_ASYM_CIPHER_PARAM_MGF1_DIGEST, g.mgf);
    if (g.lab)
        p.oct(OSSL_ASYM_CIPHER_PARAM_OAEP_LABEL, g.label);
    return p.v.empty() || EVP_PKEY_CTX_set_params(x, p.end()) == 1;
}
// false: refused
bool plain_crypt(Rng& r, EVP_PKEY* k, bool enc, const EncCfg& g, const Bytes& in, Bytes* out) {
    PCtx x(EVP_PKEY_CTX_new(k, nullptr));
    HCHECK((enc ? EVP_PKEY_encrypt_init(x) : EVP_PKEY_decrypt_init(x)) == 1);
    HCHECK(enc_set(r, x, g));
    out->resize(600);
    size_t n = 600;
    const uint8_t* p = in.empty() ? (const uint8_t*) "" : in.data();
    bool ok = (enc ? EVP_PKEY_encrypt(x, out->data(), &n, p, in.size()) : EVP_PKEY_decrypt(x, out->data(), &n, p, in.size())) == 1;
    out->resize(ok ? n : 0);
    return ok;
}
void flow_crypt(Ctx& c, Rng& r) {
    Handles hs(c);
    Finally fin{[&] { hs.settle(); }};
    Pair k;
    make_pair(c, r, hs, RSA_, k);
    size_t size = (size_t) EVP_PKEY_get_size(k.b);
    PCtx x(EVP_PKEY_CTX_new_from_pkey(L, k.a, nullptr));
    if (!x)
        viol("fetch", "%s: no context", k.what.c_str());
    for (int round = (int) r.range(1, 4); round > 0; round--) {
        EncCfg g;
        g.pad = r.chance(60) ? RSA_PKCS1_OAEP_PADDING : r.chance(80) ? RSA_PKCS1_PADDING : RSA_NO_PADDING;
        if (g.pad == RSA_PKCS1_OAEP_PADDING) {
            if (r.chance(70))
                g.md = r.pick(MDS);
            if (g.overhead() > size)
                g.md = "SHA256";
            if (r.coin())
                g.mgf = r.pick(MDS);
            if (r.coin()) {
                g.lab = true;
                g.label = r.bytes(r.len(80));
            }
        }
        bool enc = r.coin();
        Bytes msg = r.bytes(g.pad == RSA_NO_PADDING ? size : r.below(size - g.overhead() + 1));
        if (g.pad == RSA_NO_PADDING)
            msg[0] = 0;
        if ((enc ? EVP_PKEY_encrypt_init(x) : EVP_PKEY_decrypt_init(x)) != 1)
            viol("crypt-init", "%s: %s", k.what.c_str(), enc ? "encrypt" : "decrypt");
        trace("%s %s %s, %zu bytes", k.what.c_str(), enc ? "encrypt" : "decrypt", g.str().c_str(), msg.size());
        if (!enc_set(r, x, g))
            viol("crypt-set", "%s refused", g.str().c_str());
        PCtx dup;
        EVP_PKEY_CTX* u = x;
        if (r.chance(30)) {
            dup.set(EVP_PKEY_CTX_dup(x));
            if (!dup)
                viol("dup", "a context for RSA encryption cannot be copied (%s)", g.str().c_str());
            u = dup;
            cov("crypt-duplicated");
        }
        if (r.coin()) {   // what was set, asked back
            int pad = -9;
            char name[40] = "?";
            OSSL_PARAM q[] = {OSSL_PARAM_construct_int(OSSL_ASYM_CIPHER_PARAM_PAD_MODE, &pad), OSSL_PARAM_construct_end()};
            OSSL_PARAM w[] = {OSSL_PARAM_construct_utf8_string(OSSL_ASYM_CIPHER_PARAM_PAD_MODE, name, sizeof name), OSSL_PARAM_construct_end()};
            if (EVP_PKEY_CTX_get_params(u, q) != 1 || pad != g.pad)
                viol("get-padding", "padding %d set, %d asked back", g.pad, pad);
            const char* want = g.pad == RSA_PKCS1_PADDING ? OSSL_PKEY_RSA_PAD_MODE_PKCSV15 : g.pad == RSA_NO_PADDING ? OSSL_PKEY_RSA_PAD_MODE_NONE : OSSL_PKEY_RSA_PAD_MODE_OAEP;
            if (EVP_PKEY_CTX_get_params(u, w) != 1 || strcmp(name, want))
                viol("get-padding", "padding %s set, %s asked back", want, name);
            if (u == x && g.md && (EVP_PKEY_CTX_get_rsa_oaep_md_name(u, name, sizeof name) != 1 || !EVP_MD_is_a(EVP_get_digestbyname(g.md), name)))
                viol("get-oaep-digest", "%s set, %s asked back", g.md, name);
            unsigned char* l = nullptr;
            if (u == x && g.lab && !g.label.empty()) {   // OpenSSL 3.0 cannot ask a copy
                int n = EVP_PKEY_CTX_get0_rsa_oaep_label(u, &l);
                if (n != (int) g.label.size() || memcmp(l, g.label.data(), g.label.size()))
                    viol("get-oaep-label", "another label asked back, %d bytes for %zu", n, g.label.size());
            }
        }
        Bytes in = msg, want;
        bool good = true;
        Rng q(r.next());
        if (!enc) {
            HCHECK(plain_crypt(q, k.b, true, g, msg, &in));
            if (g.pad == RSA_PKCS1_OAEP_PADDING && r.chance(25)) {
                good = false;
                in[in.size() - 1 - r.below(in.size() - 1)] ^= (uint8_t) (1 << r.below(8));
            } else if (g.pad != RSA_NO_PADDING && r.chance(10)) {
                good = false;
                in.resize(r.below(in.size()));
                in.reserve(1);
            }
        } else if (r.chance(10) && g.pad != RSA_NO_PADDING) {
            good = false;
            in = msg = r.bytes(size - g.overhead() + 1 + r.below(40));
        }
        GBuf ib(in);
        auto f = [&](uint8_t* p, size_t* n) { return enc ? EVP_PKEY_encrypt(u, p, n, ib.p, ib.n) : EVP_PKEY_decrypt(u, p, n, ib.p, ib.n); };
        const char* what = enc ? "RSA encryption" : "RSA decryption";
        size_t need = size;
        if (good && r.chance(80)) {
            need = r.next();
            if (f(nullptr, &need) != 1)
                if (!(g.pad == RSA_NO_PADDING && !enc))
                    viol("crypt-size", "%s %s: the size query fails", what, g.str().c_str());
            if (g.pad == RSA_NO_PADDING && !enc)
                need = size;
            if (need < (enc ? size : msg.size()) || need > 2000)
                viol("crypt-size", "%s %s: %zu announced for %zu", what, g.str().c_str(), need, msg.size());
        }
        if (good && r.chance(25)) {
            size_t n = r.below(need);
            GBuf b(n);
            size_t l = n;
            int rc = f(b.p, &l);
            GUARDS(b, what);
            if (rc == 1 && (enc || l > n || n < msg.size()))
                viol("crypt-room", "%s of %zu bytes into %zu of %zu: %zu", what, msg.size(), n, need, l);
            cov("crypt-room");
        }
        size_t room = need + r.below(20);
        GBuf b(room);
        size_t l = room;
        int rc = f(b.p, &l);
        GUARDS(b, what);
        GUARDS(ib, what);
        if (g.pad == RSA_NO_PADDING && !enc) {
            if (rc == 1 && (l > room || b.get(0, l) != msg))
                viol("crypt", "RSA decryption without padding gives something else");
            cov("crypt-no-padding");
            continue;
        }
        if (!good) {
            if (rc == 1)
                viol("crypt-bad-accepted", "%s %s: %s", what, g.str().c_str(), enc ? "a message too long taken" : "an altered cryptogram taken");
            cov("crypt-bad");
            continue;
        }
        if (rc != 1)
            viol("crypt", "%s %s of %zu bytes refused", what, g.str().c_str(), in.size());
        if (l > room)
            viol("crypt-size", "%s: %zu bytes written into %zu", what, l, room);
        Bytes out = b.get(0, l);
        if (!enc && out != msg)
            viol("crypt", "RSA decryption %s gives something else", g.str().c_str());
        if (enc) {
            if (k.priv) {
                if (!plain_crypt(q, k.b, false, g, out, &want) || want != msg)
                    viol("crypt", "RSA encryption %s: OpenSSL decrypts it to something else", g.str().c_str());
            } else if (out.size() != size)
                viol("crypt", "RSA encryption %s: %zu bytes", g.str().c_str(), out.size());
        }
        cov(strf("%s:%s", what, g.pad == RSA_PKCS1_PADDING ? "PKCS1" : g.pad == RSA_NO_PADDING ? "none" : "OAEP"));
        nontrivial(hash_bytes(what, strlen(what), msg.size() * 128 + g.label.size()));
    }
    cov("flow:crypt");
}
// ---------------------------------------------------------------- key exchange
void flow_derive(Ctx& c, Rng& r) {
    Handles hs(c);
    Finally fin{[&] { hs.settle(); }};
    static const Kind KS[] = {EC_, EC_, X25519_, X448_, DH_};
    Kind kind = r.pick(KS);
    Pair k;
    make_pair(c, r, hs, kind, k);
    PCtx x(EVP_PKEY_CTX_new_from_pkey(L, k.a, nullptr));
    if (!x || EVP_PKEY_derive_init(x) != 1)
        viol("derive-init", "%s", k.what.c_str());
    PKey peer;   // with its private key
    for (int round = (int) r.range(1, 4); round > 0; round--) {
        if (r.chance(20) && EVP_PKEY_derive_init(x) != 1)
            viol("derive-init", "%s: again", k.what.c_str());
        else if (r.chance(15)) {
            PCtx d(EVP_PKEY_CTX_dup(x));
            if (!d)
                viol("dup", "%s: a context without a peer cannot be copied", k.what.c_str());
            cov("derive-duplicated");
        }
        if (round == 1 && !peer && r.chance(30)) {   // no peer set
            GBuf b(64);
            size_t l = 64;
            PCtx y(EVP_PKEY_CTX_new_from_pkey(L, k.a, nullptr));
            if (EVP_PKEY_derive_init(y) == 1 && EVP_PKEY_derive(y, b.p, &l) == 1)
                viol("derive-unset", "%s: derived without a peer", k.what.c_str());
            cov("derive-without-peer");
            continue;
        }
        // the other side
        bool fits = true;
        peer.set(nullptr);
        if (kind == DH_) {
            PCtx g(EVP_PKEY_CTX_new(k.b, nullptr));
            HCHECK(EVP_PKEY_keygen_init(g) == 1 && EVP_PKEY_keygen(g, &peer) == 1);
        } else {
            sa_elliptic_curve cv = k.curve;
            if (r.chance(10)) {
                cv = r.pick(curves_all());
                fits = cv == k.curve;
            }
            EKey e = ec_generate(r, cv);
            peer.set(e.pkey);
        }
        int form = kind == DH_ ? 2 * (int) r.below(2) : (int) r.below(3);   // the library imports no DH private keys
        PKey given;
        if (form == 0)
            given.set(pkey_from_pub(pub_of(peer)));
        else if (form == 1) {
            HCHECK(EVP_PKEY_up_ref(peer) == 1);
            given.set(peer);
        } else {   // one of the provider
            OSSL_PARAM* q = nullptr;
            HCHECK(EVP_PKEY_todata(peer, EVP_PKEY_PUBLIC_KEY, &q) == 1);
            const char* nm = EVP_PKEY_is_a(peer, "EC") ? "EC" : EVP_PKEY_is_a(peer, "DH") ? "DH" : EVP_PKEY_get0_type_name(peer);
            int rc = from_data(nm, &given, EVP_PKEY_PUBLIC_KEY, q);
            OSSL_PARAM_free(q);
            if (rc != 1)
                viol("fromdata-public", "%s: a public key refused", nm);
        }
        trace("%s with %s, given %s", k.what.c_str(), EVP_PKEY_get0_type_name(peer), form == 0 ? "public" : form == 1 ? "whole" : "in the provider");
        int set = EVP_PKEY_derive_set_peer(x, given);
        if (fits && set != 1)
            viol("derive-peer", "%s: the peer is refused (form %d)", k.what.c_str(), form);
        if (r.coin())
            given.set(nullptr);
        PCtx dup;
        EVP_PKEY_CTX* u = x;
        if (set == 1 && r.chance(25)) {
            dup.set(EVP_PKEY_CTX_dup(x));
            if (!dup)
                viol("dup", "%s: a context cannot be copied", k.what.c_str());
            u = dup;
            cov("derive-duplicated");
        }
        size_t need = sizeof(sa_key);
        if (set == 1 && r.coin() && (EVP_PKEY_derive(u, nullptr, &need) != 1 || need < sizeof(sa_key) || need > 1000))
            viol("derive-size", "%s: the size query gives %zu", k.what.c_str(), need);
        if (set == 1 && r.chance(25)) {
            size_t n = r.below(sizeof(sa_key));
            GBuf b(n);
            size_t l = n;
            int rc = EVP_PKEY_derive(u, b.p, &l);
            GUARDS(b, "deriving a secret");
            if (rc == 1)
                viol("derive-room", "%s: a handle delivered into %zu bytes", k.what.c_str(), n);
            cov("derive-room");
        }
        size_t off = r.below(8);   // the output need not be aligned
        GBuf b(off + need + r.below(20));
        size_t l = b.n - off;
        int rc = set == 1 ? EVP_PKEY_derive(u, b.p + off, &l) : 0;
        GUARDS(b, "deriving a secret");
        if (!fits) {
            if (rc == 1)
                viol("derive-wrong-group", "%s: derived with a key of another group", k.what.c_str());
            cov("derive-wrong-group");
            PCtx fresh(EVP_PKEY_CTX_new_from_pkey(L, k.a, nullptr));
            x.set(fresh.take());
            if (EVP_PKEY_derive_init(x) != 1)
                viol("derive-init", "%s", k.what.c_str());
            continue;
        }
        if (rc != 1 || l != sizeof(sa_key))
            viol("derive", "%s: refused (%d, %zu)", k.what.c_str(), rc, l);
        sa_key h;
        memcpy(&h, b.p + off, sizeof h);
        Bytes ref;
        {
            PKey pub(pkey_from_pub(pub_of(k.a)));
            ref = ref_ecdh(peer, pub);
        }
        // a shared secret is no key to encrypt with: what is derived from it tells
        sa_header hd;
        if (SX(key_header, &hd, h) != SA_STATUS_OK)
            viol("derive", "%s: what was derived is no key handle", k.what.c_str());
        if (hd.size != ref.size())
            viol("derive", "%s: a secret of %d bytes, not %zu", k.what.c_str(), (int) hd.size, ref.size());
        sa_rights rt = rights_all();
        Bytes info = r.bytes(10);
        sa_kdf_parameters_concat kp = {16, SA_DIGEST_ALGORITHM_SHA256, h, info.data(), info.size()};
        sa_key d = INVALID_HANDLE;
        sa_status st = SX(key_derive, &d, &rt, SA_KDF_ALGORITHM_CONCAT, &kp);
        if (st == SA_STATUS_OK) {
            std::string why;
            Bytes want = ref_concat(SA_DIGEST_ALGORITHM_SHA256, ref, info, 16, false);
            if (!sym_matches(c.s, d, want, &why))
                viol("derive", "%s: another secret than OpenSSL's: %s", k.what.c_str(), why.c_str());
            w_in_call = true;
            SX(key_release, d);
        } else
            viol("derive", "%s: nothing can be derived from the secret: %s", k.what.c_str(), status_name(st));
        if (SX(key_release, h) != SA_STATUS_OK)
            viol("derived-release", "%s: the secret cannot be released", k.what.c_str());
        cov(strf("derive:%s", KIND_NAME[kind]));
        nontrivial(hash_bytes(k.what.data(), k.what.size(), (uint64_t) form));
    }
    cov("flow:derive");
}
// OpenSSL's KBKDF and the provider's of the same name: see the known finding
// The parameters of a DH group as OpenSSL's own keys take them, P and G as numbers.
void flow_dh_order() {
    DhGroup const& g = dh_group();
    Bytes pp(g.p.rbegin(), g.p.rend()), gg(g.g.rbegin(), g.g.rend());
    OSSL_PARAM q[] = {OSSL_PARAM_construct_BN(OSSL_PKEY_PARAM_FFC_P, pp.data(), pp.size()),
            OSSL_PARAM_construct_BN(OSSL_PKEY_PARAM_FFC_G, gg.data(), gg.size()), OSSL_PARAM_construct_end()};
    PKey t, k;
    if (from_data("DH", &t, EVP_PKEY_KEY_PARAMETERS, q) != 1)
        viol("dh-order", "DH parameters refused");
    PCtx x(EVP_PKEY_CTX_new_from_pkey(L, t, nullptr));
    BIGNUM* bp = nullptr;
    if (!x || EVP_PKEY_keygen_init(x) != 1 || EVP_PKEY_generate(x, &k) != 1 || EVP_PKEY_get_bn_param(k, OSSL_PKEY_PARAM_FFC_P, &bp) != 1)
        viol("dh-order", "no DH key generated from the parameters of a group given as numbers");
    Bytes got((size_t) BN_num_bytes(bp));
    BN_bn2bin(bp, got.data());
    BN_free(bp);
    if (got != g.p)
        viol("dh-order", "the DH key generated from the parameters of a group given as numbers is of another group");
}
void flow_kbkdf(Ctx& c, Rng& r) {
    Bytes key = r.bytes(16), label = r.bytes(8), info = r.bytes(8), want(16);
    {
        Kdf k(EVP_KDF_fetch(nullptr, "KBKDF", nullptr));
        KdfCtx x(EVP_KDF_CTX_new(k));
        Params p;
        p.utf8(OSSL_KDF_PARAM_MAC, "CMAC");
        p.utf8(OSSL_KDF_PARAM_CIPHER, "AES-128-CBC");
        p.oct(OSSL_KDF_PARAM_KEY, key);
        p.oct(OSSL_KDF_PARAM_SALT, label);
        p.oct(OSSL_KDF_PARAM_INFO, info);
        HCHECK(EVP_KDF_derive(x, want.data(), 16, p.end()) == 1);
    }
    sa_key h = new_sym(c, key), d;
    Bytes hb((const uint8_t*) &h, (const uint8_t*) &h + sizeof h), out(16);
    Kdf k(EVP_KDF_fetch(L, "KBKDF", nullptr));
    KdfCtx x(EVP_KDF_CTX_new(k));
    Params p;
    int on = 1;
    p.oct(OSSL_KDF_PARAM_KEY, hb);
    p.oct(OSSL_KDF_PARAM_SALT, label);
    p.oct(OSSL_KDF_PARAM_INFO, info);
    p.v.push_back(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_SEPARATOR, &on));
    p.v.push_back(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_L, &on));
    if (EVP_KDF_derive(x, out.data(), 16, p.end()) != 1)
        viol("derive", "KBKDF refused");
    memcpy(&d, out.data(), sizeof d);
    std::string why;
    bool same = sym_matches(c.s, d, want, &why);
    w_in_call = true;
    SX(key_release, d);
    SX(key_release, h);
    cov("kbkdf");
    if (!same)
        viol("kbkdf-format", "KBKDF of the provider (one-byte counter, length in bytes, no separator and length unless asked) derives another key than OpenSSL's KBKDF");
}
// ---------------------------------------------------------------- running flows
struct Flow {
    const char* name;
    void (*f)(Ctx&, Rng&);
    unsigned weight;
};
const Flow FLOWS[] = {
    {"crypt", flow_crypt, 2},
    {"derive", flow_derive, 2},
    {"sign", flow_sign, 3},
    {"keys", flow_keys, 2},
    {"kdf", flow_kdf, 4},
    {"cipher", flow_cipher, 7},
    {"mac", flow_mac, 4},
    {"digest", flow_digest, 2},
};
int64_t settle() {
    ERR_clear_error();
    return call_live_blocks();
}
void run_flow(Ctx& c, const Flow& f, Rng q) {
    int64_t b[4] = {};
    w_call_track = true;
    for (int i = 0; i < 4; i++) {
        Rng again = q;
        uint64_t live = live_blocks();
        w_in_call = true;
        f.f(c, again);
        w_in_call = false;
        if (live_blocks() != live) {
            if (getenv("VERIF_ALLOCMAP"))
                ta_live_dump();
            viol(strf("objects-left:%s", f.name), "%s leaves %lld blocks of SecAPI objects behind", f.name, (long long) (live_blocks() - live));
        }
        b[i] = settle();
        if (i > 0 && b[i] <= b[i - 1])
            break;
        if (i == 3) {
            if (getenv("VERIF_ALLOCMAP"))
                ta_live_dump();
            viol(strf("leak:%s", f.name), "each repetition of %s leaves %lld more allocated blocks behind", f.name, (long long) (b[3] - b[2]));
        }
    }
    w_call_track = false;
}
void init() {
    Rng r(3);
    ops_warmup(r);
    L = sa_get_provider();
    HCHECK(L);
}
void one(Rng& r, uint64_t index) {
    uint64_t before = live_blocks();
    {
        Sess s(false, UUID_REE);
        Ctx c{s};
        const char* only = getenv("C27_FLOW");
        std::vector<const Flow*> fl;
        for (auto& f : FLOWS)
            for (unsigned i = 0; i < f.weight; i++)
                if (!only || !strcmp(only, f.name))
                    fl.push_back(&f);
        for (int i = 0; i < 6; i++) {
            const Flow* f = r.pick(fl);
            trace("-- %s", f->name);
            run_flow(c, *f, Rng(r.next()));
        }
    }
    if (live_blocks() != before)
        viol("objects-left:session", "blocks before: %" PRIu64 ", after: %" PRIu64, before, live_blocks());
    if (index % 50 == 7) {
        Sess s(false, UUID_REE);
        Ctx c{s};
        flow_kbkdf(c, r);
        w_in_call = false;
    }
    if (index % 50 == 9) {
        Sess s(false, UUID_REE);
        flow_dh_order();
        w_in_call = false;
    }
    if (index % 100 == 0)
        sample(strf("case seed %" PRIu64, g_case_seed));
}
}   // namespace
Harness harness() {
    return {"random flows over every algorithm the provider offers, step for step beside plain OpenSSL: splits, size queries, duplicates, re-initialisations, raw keys and "
            "handles lent or given. Distinct: algorithm, sizes, pieces, forms", init, one, nullptr};
}
