// C11: every allocation of every engine operation fails once (or from there on).
#include "sim.h"
#include "model.h"
#include "common.h"
#include "ops.h"
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/objects.h>
using namespace sim;
using namespace ops;

namespace {
void setup()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    if (!attach(sut::e)) { fprintf(stderr, "engine lacks algorithms\n"); _exit(77); }
}

void run()
{
    uint32_t which = strat(21, "operation");
    model::Key k;
    switch (choose(4, "curve class")) { case 0: case 1: make_key(&k, 0, 4); break; case 2: make_key(&k, model::first_custom, model::first_tiny); break; default: make_key(&k, 4, 10); }
    rng.seed = 1 + choose(1u << 30, "rng");
    set_step_budget(2000000000);
    EVP_PKEY *pk, *pub; Bytes pk0, pub0;
    { Quiet q; pk = model::import_priv(k); pub = model::import_pub(k); SIM_CHECK(pk && pub, "setup", "a key cannot be imported"); pk0 = model::pkcs8(k); pub0 = model::spki(k); }
    Op op;
    op = ops::make(which, k, pk, pub);
    set_op(names[which]);
    at = -1; rng.budget = rng.calls + 40000;
    uint32_t kk;
    // libcrypto's own one-time set-up does not recover from failures: let it happen before
    SIM_CHECK(op() == 1, "failed", "%s fails although nothing is wrong (%s)", names[which], model::curve_name(k.curve).c_str());
    op();
    kk = strat(seen ? (uint32_t) seen : 1, "allocation");
    probe(names[which]);
    persist = choose(3, "persist") == 2;
    ev("%s on %s: allocation %u of %ld fails%s", names[which], model::curve_name(k.curve).c_str(), kk, seen, persist ? ", all later ones too" : "");
    at = kk; fired = false; int rc = 0;
    leak_check([&] { fired = false; rc = op(); SIM_CHECK(rc == 1 || fired, "failed", "%s fails although no allocation failed", names[which]); }, names[which]);
    probe(!fired ? "not reached" : rc ? "succeeded in spite of the failure" : "failed cleanly");
    at = -1; ERR_clear_error();
    rc = op();
    SIM_CHECK(rc == 1, "not-recovered", "%s still fails when memory is available again", names[which]);
    Quiet q;
    SIM_CHECK(model::export_priv(pk) == pk0 && model::export_pub(pk) == pub0 && model::export_pub(pub) == pub0, "object-damaged", "the key given to %s was changed", names[which]);
}
}
extern const Workload wl_c11 = {"C11", setup, run, 8000, 400000};
