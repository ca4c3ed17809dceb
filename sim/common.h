// Pieces shared by the workloads.
#pragma once
#include "sim.h"
#include "model.h"
Bytes pick_sbox();                         // a custom substitution table (sometimes the default one)
Bytes pick_key();                          // 32 byte cipher key
void pick_rng_faults();                    // plans a random source that may fail or misbehave
uint32_t pick_style();                     // preemption style
void make_key(model::Key *k, int from, int upto);   // random key on a curve in [from, upto)
BIGNUM *pick_scalar(const BIGNUM *n);      // in 1..n-1, biased to extremes
void warm_libcrypto();
// runs op (a complete operation that frees what it got); reports blocks the library lost
void leak_check(const std::function<void()> &op, const char *what);
Bytes der_mangle(const Bytes &der);        // a well-nested encoding with some elements replaced, dropped, doubled or exchanged
// nested encodings taken apart and put together
struct Node { unsigned tag = 0; Bytes val; std::vector<Node> sub; bool cons = false; };
bool parse_nodes(const unsigned char *p, const unsigned char *e, std::vector<Node> *out);
Bytes put_nodes(const std::vector<Node> &v);
bool long_derivation(const Bytes &d);                    // asks for more rounds of PBKDF2 than a run can afford
Bytes odd_pbes2(const Bytes &plain, const Bytes &pass);  // encrypted with the right password, but described strangely
