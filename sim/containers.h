// Key containers written independently of the library, byte by byte.
#pragma once
#include "model.h"
namespace cont {
struct Password { Bytes u8, u16; };                    // UTF-8 and UTF-16BE
Password pick_password(bool nonempty = true);
enum Type { KEY6, JKS, P12 };
extern const char *type_name[];
struct Field { size_t at, len; const char *what; };    // length and count fields of a JKS file
struct Box {
    Type type = KEY6; Bytes bytes; Password store, key;
    std::vector<Bytes> keys, certs;                    // what must come out: PKCS#8 and X.509 encodings, in order
    std::vector<Field> fields, sealed;      // sealed: the encrypted keys of a JKS
   
    size_t used = 0;                                   // bytes that matter (JKS may be followed by anything)
    bool slow = false;
    bool has_key_entry = false;
    bool unreadable = false;                           // holds a key that nobody can take out
    bool fixture = false;                              // keys and certs hold SHA-256 values
};
void init();                                           // certificate pool
Bytes pick_cert();
Bytes pkcs8_with_attr(const model::Key &k1, const model::Key *k2);
Bytes jks_protect(const Bytes &plain, const Bytes &pw16, const Bytes &salt);
Bytes jks_digest(const Bytes &body, const Bytes &pw16);
Bytes p12_kdf(const char *hash, const Bytes &bmp, const Bytes &salt, int id, int iter);
Bytes key6_kdf(const Bytes &pw);
Box make(Type t, bool hostile = false);                // seeded; hostile: strange but properly sealed structure
extern bool extremes;                                  // now and then containers with very many or very large parts
Box key6_forged(const char **what);                    // must never give the key that is in it
Box fixture(int i);                                    // the repository's sample files (0 Key-6.dat, 1 key.jks, 2 Key-6.pfx)
std::string differs(sut::KeyStore *ks, const Box &b);  // empty: exactly what was stored
int parse(const Box &b, const Bytes &data, const Bytes &spw, const Bytes &kpw, sut::KeyStore **ks, int guard);
int read_bio(const Box &b, BIO *io, const Bytes &spw, const Bytes &kpw, sut::KeyStore **ks);
int read_file(const Box &b, FILE *f, const Bytes &spw, const Bytes &kpw, sut::KeyStore **ks);
}
