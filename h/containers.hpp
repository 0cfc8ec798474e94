// TypeJ and SoC key containers: models, builders and the rights they state
#pragma once
#include "common.hpp"

struct JField { std::string name, raw; };
typedef std::vector<JField> JMap;
std::string jstr(const std::string& s);                       // a JSON string
std::string jtext(const JMap& m, Rng* r = nullptr);            // with r: in another order, with white space
JField* jfind(JMap& m, const std::string& name);
void jdrop(JMap& m, const std::string& name);
std::string b64std(const Bytes& in);
std::string uuid_text(const sa_uuid& u, bool upper = false);

struct TypeJ {
    int version = 2;             // 0: not stated (1)
    Bytes kcipher, khmac, content, iv;
    int alg = 0;                 // aesEcbNone, aesEcbPkcs5, aesCbcNone, aesCbcPkcs5
    std::string id;
    Bytes right_list;
    int usage = 1;
    int64_t nb = 0, noa = 0;
    bool cacheable = false;
    int tas = -1;                // number of entitled TAs, -1: not stated
    std::vector<sa_uuid> ta;
};
TypeJ typej_rand(Rng& r);
std::string iso_time(int64_t t);
Bytes typej_wrapped(const TypeJ& t);          // the encrypted content key
JMap typej_fields(const TypeJ& t, Rng* r = nullptr);
sa_rights typej_rights(const TypeJ& t, const sa_rights& kcipher);
Bytes jwt(const std::string& header, const std::string& payload, const std::function<Bytes(const Bytes&)>& mac);
Bytes typej_pack(const std::string& payload, const Bytes& khmac, const char* header = "{\"alg\":\"HS256\",\"kid\":\"k\"}");

struct Soc {
    int version = 5;
    int root = -1;               // -1: not stated, 0 unique, 1 common
    std::string key_type;
    sa_key_type type = SA_KEY_TYPE_SYMMETRIC;
    size_t size = 16;
    sa_elliptic_curve curve{};
    bool hmac = false;
    Bytes key;
    const EKey* ek = nullptr;
    Bytes iv, c1, c2, c3;
    int usage = 1, decrypted = 1;
    std::vector<sa_uuid> ta;
    bool has_params = false;
    sa_import_parameters_soc params{};
};
Soc soc_rand(Rng& r, bool any_type);
Bytes soc_aad(const Soc& c);
Bytes soc_seal(const Soc& c, Bytes* tag);     // the encrypted key
JMap soc_fields(const Soc& c, const Bytes& sealed, Rng* r = nullptr);
sa_rights soc_rights(const Soc& c);
Bytes soc_pack(const std::string& payload, const Bytes& tag, const char* header = "{\"alg\":\"A128GCM\"}");
const std::vector<std::string>& soc_types();
// what the monitors of both containers share
std::string mutate_text(Rng& r, std::string s, int kind);      // 0..: small edits of a text
std::string hostile_json(Rng& r, const std::string& inner, std::string* what);
void on_small_stack(const std::function<void()>& f);           // as TAs have
Bytes b64loose(Rng& r, const Bytes& raw);
