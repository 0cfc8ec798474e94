// Small helpers for a demonstration program; compiled against the library built in the current directory's _build.
#pragma once
#include <unistd.h>
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
extern "C" {
#include "log.h"
}
#include "sa.h"
#include "sa_cenc.h"
#include "sa_ta_types.h"
#include "ta_sa.h"
typedef std::vector<uint8_t> Bytes;
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define NEED(c) do { if (!(c)) { printf("SETUP FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(3); } } while (0)
static inline sa_rights all_rights() {
    sa_rights r;
    memset(&r, 0, sizeof r);
    r.usage_flags = ~0ull;
    r.not_on_or_after = UINT64_MAX;
    memset(&r.allowed_tas[MAX_NUM_ALLOWED_TA_IDS - 1], 0xff, sizeof(sa_uuid));
    return r;
}
static inline Bytes rnd(size_t n) { Bytes b(n); if (n) RAND_bytes(b.data(), (int) n); return b; }
static inline sa_key sym(const Bytes& b, const sa_rights& r) {
    sa_key k = INVALID_HANDLE;
    sa_import_parameters_symmetric p = {&r};
    NEED(sa_key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, b.data(), b.size(), &p) == SA_STATUS_OK);
    return k;
}
static inline sa_buffer cbuf(void* p, size_t n, size_t off = 0) {
    sa_buffer b;
    memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_CLEAR;
    b.context.clear.buffer = p;
    b.context.clear.length = n;
    b.context.clear.offset = off;
    return b;
}
static inline sa_buffer sbuf(sa_svp_buffer h, size_t off = 0) {
    sa_buffer b;
    memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_SVP;
    b.context.svp.buffer = h;
    b.context.svp.offset = off;
    return b;
}
static inline Bytes evp(const char* name, const Bytes& key, const Bytes& iv, const Bytes& in, bool enc) {
    EVP_CIPHER* c = EVP_CIPHER_fetch(nullptr, name, nullptr);
    NEED(c);
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
    NEED(EVP_CipherInit_ex2(x, c, key.data(), iv.empty() ? nullptr : iv.data(), enc, nullptr) == 1);
    EVP_CIPHER_CTX_set_padding(x, 0);
    Bytes o(in.size() + 32);
    int n = 0, m = 0;
    NEED(EVP_CipherUpdate(x, o.data(), &n, in.data(), (int) in.size()) == 1);
    NEED(EVP_CipherFinal_ex(x, o.data() + n, &m) == 1);
    o.resize((size_t) (n + m));
    EVP_CIPHER_CTX_free(x);
    EVP_CIPHER_free(c);
    return o;
}
