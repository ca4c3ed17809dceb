// Independent reference models, written from the standards.
#pragma once
#include "sim.h"
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/x509.h>

namespace model {
extern const unsigned char default_sbox[64];
struct Sbox { unsigned char k[8][16]; };          // k[0] is the table of the least significant nibble
Sbox unpack(const unsigned char *packed);         // packed: 8 rows of 8 bytes, high nibble first
struct Gost {                                     // GOST 28147 block cipher
    uint32_t key[8]; Sbox s; uint32_t t[4][256]; bool tab = false;
    void init(const Sbox &sb);
    void setkey(const unsigned char *k);
    uint32_t f(uint32_t x) const;
    void enc(const unsigned char *in, unsigned char *out) const;
    void mac16(unsigned char *st) const;
};
Bytes cfb(const unsigned char *key, const unsigned char *sbox, const unsigned char *iv, const Bytes &in, bool enc);
Bytes mac(const unsigned char *key, const unsigned char *sbox, const Bytes &in);  // 4 bytes
struct Hash {                                     // GOST 34.311-95, one shot over the collected message
    Bytes m; Bytes sbox;
    explicit Hash(const unsigned char *sb = default_sbox) : sbox(sb, sb + 64) {}
    void add(const Bytes &b) { m.insert(m.end(), b.begin(), b.end()); }
    Bytes fin() const;
};
Bytes hash(const Bytes &m, const unsigned char *sbox = default_sbox);
Bytes hmac(const Bytes &key, const Bytes &m, const unsigned char *sbox = default_sbox);
Bytes pbkdf2(const Bytes &pass, const Bytes &salt, int iter, size_t len);
struct Rbg {                                      // DSTU 4145 annex A generator
    Gost g; uint64_t s, I;
    Rbg(const Bytes &seed40, int64_t time);
    unsigned char byte();
};
uint64_t le64(const unsigned char *p);
void put64(unsigned char *p, uint64_t v);

// DSTU 4145. Curves: 0..9 the named ones, 10.. custom ones (small ones last)
struct Curve {
    std::vector<int> poly; int a; std::string b, n, x, y;    // poly: exponents m, ..., 0
    int named = -1; int cof = 1; EC_GROUP *g = nullptr; int m = 0; BIGNUM *order = nullptr; bool tiny = false; int nid = 0;
};
extern std::vector<Curve> curves;
void dstu_init();                                 // builds and checks the table (harness start-up)
extern int first_custom, first_tiny;
std::string curve_name(int i);
int fbytes(const EC_GROUP *g);                    // field element size
int obytes(const EC_GROUP *g);                    // group order size
BIGNUM *hash_elem(const Bytes &h, const EC_GROUP *g);
bool verify(const EC_GROUP *g, const EC_POINT *Q, const Bytes &h, const BIGNUM *r, const BIGNUM *s);
Bytes compress(const EC_GROUP *g, const EC_POINT *p);        // big endian, field size
EC_POINT *expand(const EC_GROUP *g, int a, const Bytes &c);  // nullptr: not a point
Bytes sig_raw(const EC_GROUP *g, const BIGNUM *r, const BIGNUM *s, bool le);
EC_POINT *pub(const EC_GROUP *g, const BIGNUM *d);
int trace(const BIGNUM *x, const EC_GROUP *g);

// DER
Bytes tlv(unsigned tag, const Bytes &c);
Bytes cat(std::initializer_list<Bytes> l);
Bytes seq(std::initializer_list<Bytes> l);
Bytes seqv(const std::vector<Bytes> &l);
Bytes setv(const std::vector<Bytes> &l);
Bytes integer(long v);
Bytes integer_bn(const BIGNUM *v);
Bytes octets(const Bytes &b);
Bytes bits(const Bytes &b);
Bytes oid(const char *dotted);
Bytes null();
Bytes str(const char *s);
Bytes utf8(const char *s);
Bytes unhex(const std::string &h);
Bytes rev(const Bytes &b);
Bytes bnb(const BIGNUM *b, int len);              // big endian, padded
struct Der { unsigned tag; size_t hdr, len; const unsigned char *p; };   // one element
bool der_next(const unsigned char *&p, const unsigned char *end, Der *d);
extern const char *OID_LE, *OID_BE, *OID_HASH, *OID_CFB, *OID_HMAC, *OID_PBES2, *OID_PBKDF2, *OID_DATA;

// a key as the standard sees it
struct Key {
    int curve = 6; bool le = true; Bytes sbox; BIGNUM *d = nullptr; EC_POINT *q = nullptr;
    const EC_GROUP *g() const { return curves[curve].g; }
    void set(int curve, bool le, const Bytes &sbox, const BIGNUM *d);
    void clear() { BN_free(d); EC_POINT_free(q); d = nullptr; q = nullptr; }
};
Bytes params_der(const Key &k, bool explicit_default_sbox = false);
Bytes alg_id(const Key &k, bool explicit_default_sbox = false);
Bytes pkcs8(const Key &k, bool explicit_default_sbox = false);
Bytes spki(const Key &k, bool explicit_default_sbox = false);
Bytes pbes2(const Bytes &plain, const Bytes &pass, const Bytes &salt, int iter, const Bytes &iv, const Bytes &dke, bool keylen);  // EncryptedPrivateKeyInfo
Bytes cert(const Key &subject, const Key &issuer, long serial, const char *cn, unsigned usage_bits, const BIGNUM *nonce, const Bytes &skid);  // X.509, signed by the model
void sign(const Key &k, const Bytes &h, const BIGNUM *e, BIGNUM *r, BIGNUM *s);
// library key objects made from the encodings
EVP_PKEY *import_priv(const Key &k);
EVP_PKEY *import_pub(const Key &k);
bool read_pkcs8(const Bytes &der, Key *k);        // parse what the library exported
Bytes export_pub(const EVP_PKEY *p);
Bytes export_priv(const EVP_PKEY *p);
}
