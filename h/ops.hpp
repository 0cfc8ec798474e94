// A catalogue of every operation that uses a key: how to issue it, which right it needs, and what a success must give.
#pragma once
#include "common.hpp"

enum KK { K_SYM16, K_SYM32, K_RSA, K_EC256, K_ED25519, K_X25519, K_DH, K_COUNT };
const char* kk_name(KK k);

struct KInfo {           // a key whose material we know (DH: whose public key we know)
    KK kind;
    sa_key h = INVALID_HANDLE;
    Bytes mat;           // symmetric: material; RSA, EC: PKCS#8
    EKey ek;             // RSA, EC
    Bytes dh_pub;
    sa_rights rights;
};
struct DhGroup { Bytes p, g; };
const DhGroup& dh_group();     // a 512-bit safe-prime group (fast)
// st receives the status when not null; otherwise a failure is a violation
KInfo make_key(Sess& s, Rng& r, KK kind, const sa_rights& rights, sa_status* st = nullptr);

struct OpEnv {
    Sess& s;
    Rng& r;
    const KInfo& k;       // what the handle refers to (material for the reference)
    sa_key h;             // the handle used
    bool svp_out = false; // deliver symmetric cipher output to an SVP buffer
    bool check_leak = true;
    const char* op = "";
    const sa_rights* child = nullptr;      // rights asked for created keys (default: everything)
    std::function<void()> mid;             // called with a cipher context open, before it processes
    std::function<void(sa_key)> on_child;  // called with every key created
    const sa_uuid* as = nullptr;           // the calls on the key are made by this caller
    bool avoid = false;                    // helper keys must not get the handle value h
    int stage = 0;        // 0: the first call on the key was refused; 1: a context was created, then processing was refused
    // runs one call; a refusal must leave nothing behind
    sa_status call(const std::function<sa_status()>& f);
};
struct Op {
    std::string name;
    int flag;            // usage flag it needs, -1: none
    unsigned kinds;      // bit per KK
    bool load;           // needs the key's material: validity, allowed TAs and outputs apply
    bool clear;          // delivers protected data to clear memory: needs SVP_OPTIONAL (unless svp_out and svp_able)
    bool svp_able;
    bool sym_cipher;     // opens a symmetric cipher context (rights are checked again on every processing call)
    bool creates;        // makes a child key with rights
    int parent_pos;      // 1: the key is the parent whose rights restrict the child; 0: other position
    bool unwraps;
    std::function<sa_status(OpEnv&)> run;   // the status of the operation; throws a violation if a success gave a wrong answer
};
const std::vector<Op>& ops();
std::vector<const Op*> ops_for(KK k);
sa_status run_op(const Op& op, OpEnv& e);
void ops_warmup(Rng& r);    // runs everything once so that process-wide lazy state exists

// content of a minimal valid TypeJ container
Bytes typej_simple(const Bytes& kcipher, const Bytes& khmac, const Bytes& content);
Bytes rsa_encrypt(EVP_PKEY* k, bool oaep, const EVP_MD* md, const EVP_MD* mgf, const Bytes* label, const Bytes& in);
Bytes elgamal_encrypt(EVP_PKEY* k, sa_elliptic_curve c, const Bytes& px, Rng& r);  // px: x coordinate of a curve point
Bytes elgamal_plain(EVP_PKEY* k, sa_elliptic_curve c, Rng& r);                     // a random valid x coordinate
Bytes ref_ecdh(EVP_PKEY* priv, EVP_PKEY* peer);
bool verify_sig(EVP_PKEY* pub, sa_signature_algorithm alg, const EVP_MD* md, const EVP_MD* mgf, int salt, bool pre,
        sa_elliptic_curve curve, const Bytes& in, const Bytes& sig);
Bytes ref_hkdf(sa_digest_algorithm d, const Bytes& ikm, const Bytes& salt, const Bytes& info, size_t n);
Bytes ref_concat(sa_digest_algorithm d, const Bytes& key, const Bytes& info, size_t n, bool x963);
Bytes ref_cmac_kdf(const Bytes& key, const Bytes& other, uint8_t counter, size_t n);
Bytes ref_netflix_wrap(const Bytes& kenc, const Bytes& khmac);
// the key behind the handle is this RSA or EC key pair: header, public key and one use of the private key
bool asym_matches(Sess& s, Rng& r, sa_key k, bool rsa, const EKey& e, std::string* why);
