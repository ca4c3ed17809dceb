// One operation of every kind, each a closure that runs it and judges the result.
#pragma once
#include "sim.h"
#include "model.h"
namespace ops {
extern long at; extern bool persist, fired; extern long seen;   // the allocation failure to inject; at < 0: none, count
extern bool plain;                                     // neither inject nor count
typedef std::function<int()> Op;                       // 1: done and right; 0: refused
enum { KEYGEN, SIGN, VERIFY, DSIGN, DVERIFY, HASH, CIPHER, EXP_PUB, EXP_PRIV, EXP_PAR, IMP_PUB, IMP_PRIV, IMP_PAR, ENCRYPT_KEY, MAC, COMPARE, PRINT, X509_KEY, MSG_SIGN, MSG_VERIFY, DUP, N };
extern const char *names[];
extern int nid_le, nid_be;
extern const EVP_MD *md; extern const EVP_CIPHER *cfb;
bool attach(ENGINE *e);                                // looks the algorithms up
Op make(uint32_t which, const model::Key &k, EVP_PKEY *pk, EVP_PKEY *pub);
void check_sig(const model::Key &k, const Bytes &digest, const unsigned char *sig, size_t n);
Bytes make_sig(const model::Key &k, const Bytes &digest);
const unsigned char *table(const model::Key &k);
Bytes full_table(const Bytes &s);
extern std::vector<std::function<void()>> drops;       // frees what the made operations hold
void drop_all();
}
