// C12: histories of loading, using and releasing the engine. C13: threads that use everything at once.
#include "containers.h"
#include "common.h"
#include "ops.h"
#include <dlfcn.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/x509.h>
using namespace sim;

namespace {
const int CTRL_SBOX = 0x1001, CTRL_CURVE = 0x1002;

void setup13()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    sut::load_keylib();
    cont::init();
    if (!ops::attach(sut::e)) { fprintf(stderr, "engine lacks algorithms\n"); _exit(77); }
    ops::plain = true;
}

// ---------------------------------------------------------------- C13
typedef std::function<void()> Job;

struct Common                       // what the threads share
{
    model::Key k[2]; EVP_PKEY *priv[2] = {}, *pub[2] = {}; int nk = 0;
    cont::Box box; sut::KeyStore *ks = nullptr; std::vector<model::Key> kk;
    X509 *cert = nullptr; Bytes cert_der;
};

void pick_any_key(model::Key *k)
{
    Uncounted u;
    switch (choose(6, "curve class")) { case 0: case 1: case 2: make_key(k, 0, 3); break; case 3: make_key(k, model::first_custom, model::first_tiny); break; case 4: make_key(k, 3, 8); break; default: make_key(k, 0, 10); }
}

Job op_job(uint32_t which, const model::Key &k, EVP_PKEY *priv, EVP_PKEY *pub)
{
    ops::Op op = ops::make(which, k, priv, pub);
    return [=] { set_op(ops::names[which]); int rc = op(); SIM_CHECK(rc == 1, "failed", "%s fails although nothing is wrong (%s)", ops::names[which], model::curve_name(k.curve).c_str()); probe(ops::names[which]); ev("t%d %s", self(), ops::names[which]); };
}

Job long_hash()
{
    Bytes m = rbytes(300 + choose(1200, "n"), "message"), sb = choose(2, "table") ? pick_sbox() : Bytes(), want; { Quiet q; want = model::hash(m, ops::full_table(sb).data()); }
    size_t piece = 1 + choose(100, "piece");
    return [=] {
        set_op("hashing"); unsigned char o[64]; unsigned n = 0; EVP_MD_CTX *c = EVP_MD_CTX_new();
        bool ok = EVP_DigestInit_ex(c, ops::md, nullptr) == 1 && (sb.empty() || EVP_MD_CTX_ctrl(c, CTRL_SBOX, 64, (void *) sb.data()) == 1);
        for (size_t i = 0; ok && i < m.size(); i += piece) ok = EVP_DigestUpdate(c, &m[i], std::min(piece, m.size() - i)) == 1;
        ok = ok && EVP_DigestFinal_ex(c, o, &n) == 1;
        EVP_MD_CTX_free(c);
        SIM_CHECK(ok && n == 32 && !memcmp(o, want.data(), 32), "wrong-result", "a message of %zu bytes has a wrong digest: %s instead of %s", m.size(), hex(o, n).c_str(), hex(want).c_str());
        probe("long message hashed");
    };
}

Job long_cipher()
{
    Bytes m = rbytes(200 + choose(1500, "n"), "text"), key = rbytes(32, "key"), iv = rbytes(8, "iv"), sb = choose(2, "table") ? pick_sbox() : Bytes(), want; bool enc = choose(2, "decrypt") == 0; { Quiet q; want = model::cfb(key.data(), ops::full_table(sb).data(), iv.data(), m, enc); }
    size_t piece = 1 + choose(100, "piece");
    return [=] {
        set_op("encrypting"); Bytes o(m.size() + 8); EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int n = 0;
        bool ok = EVP_CipherInit_ex(c, ops::cfb, nullptr, key.data(), iv.data(), enc) == 1 && (sb.empty() || EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX, 64, (void *) sb.data()) == 1);
        for (size_t i = 0; ok && i < m.size(); i += piece) ok = EVP_CipherUpdate(c, &o[i], &n, &m[i], (int) std::min(piece, m.size() - i)) == 1;
        EVP_CIPHER_CTX_free(c); o.resize(m.size());
        SIM_CHECK(ok && o == want, "wrong-result", "a text of %zu bytes is encrypted wrongly", m.size());
        probe("long text encrypted");
    };
}

Job read_container(const cont::Box &b, int src, uint32_t style)
{
    return [=] {
        sut::KeyStore *ks = nullptr; int r; Stream s; s.data = b.bytes; s.style = (int) style % 3; if (b.type == cont::P12) s.first = 8;
        set_op("reading a container");
        if (src == 0) r = cont::parse(b, b.bytes, b.type == cont::JKS ? b.store.u8 : b.store.u8, b.key.u8, &ks, (int) style & 1);
        else if (src == 1) { BIO *io; { Quiet q; io = new_bio(&s); } r = cont::read_bio(b, io, b.store.u8, b.key.u8, &ks); Quiet q; BIO_free(io); }
        else { FILE *f; { Quiet q; f = new_file(&s, (int) style & 3); } r = cont::read_file(b, f, b.store.u8, b.key.u8, &ks); Quiet q; fclose(f); }
        SIM_CHECK(r == 1 && ks, "failed", "an intact %s container cannot be read", cont::type_name[b.type]);
        std::string d = cont::differs(ks, b);
        SIM_CHECK(d.empty(), "wrong-result", "reading a %s container: %s", cont::type_name[b.type], d.c_str());
        sut::KeyStoreFree(ks);
        probe("container read");
        ev("t%d read %s", self(), cont::type_name[b.type]);
    };
}

Job lookups()
{
    uint32_t n = 1 + choose(5, "rounds"); bool hold = choose(2, "hold") != 0;
    return [=] {
        set_op("lookups");
        for (uint32_t i = 0; i < n; i++)
        {
            if (hold) SIM_CHECK(ENGINE_init(sut::e) == 1, "failed", "the engine cannot be initialised");
            const EVP_MD *m = EVP_get_digestbyname("dstu34311"); const EVP_CIPHER *c = EVP_get_cipherbyname("dstu28147-cfb");
            SIM_CHECK(m == ops::md && c == ops::cfb, "wrong-result", "looking algorithms up by name gave others than the engine's");
            SIM_CHECK(ENGINE_get_digest(sut::e, EVP_MD_type(ops::md)) == ops::md && ENGINE_get_cipher(sut::e, EVP_CIPHER_nid(ops::cfb)) == ops::cfb, "wrong-result", "looking algorithms up by number gave others than before");
            ENGINE *d = ENGINE_get_digest_engine(EVP_MD_type(ops::md)), *p = ENGINE_get_pkey_meth_engine(ops::nid_le), *b = ENGINE_by_id("dstu");
            SIM_CHECK(d == sut::e && p == sut::e && b == sut::e, "wrong-result", "the engine in charge is another one");
            SIM_CHECK(ENGINE_get_pkey_meth(p, ops::nid_le) && ENGINE_get_pkey_asn1_meth(p, ops::nid_be), "wrong-result", "methods are missing");
            ENGINE_finish(d); ENGINE_finish(p); ENGINE_free(b);
            if (hold) ENGINE_finish(sut::e);
        }
        probe("lookups");
    };
}

Job draws()
{
    uint32_t n = 1 + choose(4, "draws"), len = 8 + choose(24, "bytes");
    return [=] {
        set_op("drawing random bytes"); const RAND_METHOD *m = ENGINE_get_RAND(sut::e); Bytes last;
        for (uint32_t i = 0; i < n; i++)
        {
            Bytes b(len); SIM_CHECK(m->bytes(b.data(), (int) len) == 1 && m->status() == 1, "failed", "random bytes cannot be drawn");
            SIM_CHECK(b != last, "wrong-result", "the same random bytes again"); last = b;
        }
        probe("draws");
    };
}

// a shared key whose last reference is dropped by whichever thread ends last
Job last_holder(const model::Key &k, EVP_PKEY *pk)
{
    uint32_t what = choose(3, "what"); ops::Op op = ops::make(what == 0 ? ops::SIGN : what == 1 ? ops::EXP_PUB : ops::PRINT, k, pk, pk);
    return [=] { set_op("using a key and letting it go"); SIM_CHECK(op() == 1, "failed", "use of a shared key fails"); EVP_PKEY_free(pk); probe("key released by threads"); };
}

cont::Box pick_container()
{
    uint32_t t = choose(30, "container");
    if (t == 29) return cont::make(cont::KEY6);
    if (t == 28) return cont::fixture(1);
    return t < 14 ? cont::make(cont::JKS) : cont::make(cont::P12);
}

void mix()
{
    Common c; std::vector<cont::Box> boxes;
    c.nk = 1 + (int) choose(2, "shared keys");
    for (int i = 0; i < c.nk; i++)
    {
        pick_any_key(&c.k[i]);
        Quiet q; c.priv[i] = model::import_priv(c.k[i]); c.pub[i] = model::import_pub(c.k[i]);
        SIM_CHECK(c.priv[i] && c.pub[i], "setup", "a key cannot be imported");
    }
    if (choose(3, "shared container") == 2)
    {
        c.box = choose(2, "type") ? cont::make(cont::JKS) : cont::make(cont::P12);
        Quiet q; SIM_CHECK(cont::parse(c.box, c.box.bytes, c.box.store.u8, c.box.key.u8, &c.ks, 0) == 1, "setup", "a container cannot be read");
        Uncounted u; for (auto &b : c.box.keys) { model::Key k; SIM_CHECK(model::read_pkcs8(b, &k), "setup", "unreadable key"); c.kk.push_back(k); }
    }
    if (choose(4, "shared certificate") == 3)
    {
        Quiet q; BIGNUM *e = BN_new(); BN_set_word(e, 777); c.cert_der = model::cert(c.k[0], c.k[0], 7, "shared", 0xc0, e, {}); BN_free(e);
        const unsigned char *p = c.cert_der.data(); c.cert = d2i_X509(nullptr, &p, (long) c.cert_der.size()); SIM_CHECK(c.cert, "setup", "a certificate cannot be read");
    }
    uint32_t nt = 2 + choose(3, "threads"), theme = choose(8, "theme"), same = choose(4, "same for all");
    uint32_t pick_one = choose(32, "job"), pick_two = choose(32, "job");
    EVP_PKEY *last = nullptr; model::Key lastk;
    if (choose(6, "last holder") == 5) { pick_any_key(&lastk); Quiet q; last = model::import_priv(lastk); for (uint32_t i = 1; i < nt; i++) EVP_PKEY_up_ref(last); }
    auto one = [&]() -> Job {
        uint32_t j = same == 3 ? pick_one : same == 2 && theme > 4 ? (choose(2, "which job") ? pick_one : pick_two) : theme == 0 ? choose(ops::N, "job") : theme == 1 ? 22 + choose(2, "job") : theme == 2 ? 24 + choose(4, "job") : choose(32, "job");
        int i = (int) choose((uint32_t) c.nk, "which key");
        if (j < ops::N) return op_job(j, c.k[i], c.priv[i], c.pub[i]);
        switch (j)
        {
        case 21: return draws();
        case 22: return long_hash();
        case 23: return long_cipher();
        case 24: case 25: case 26: { cont::Box b = pick_container(); return read_container(b, (int) choose(3, "source"), choose(12, "style")); }
        case 27: case 28: if (!c.kk.empty()) { size_t x = choose((uint32_t) c.kk.size(), "stored key"); static const uint32_t w[] = {ops::SIGN, ops::VERIFY, ops::DSIGN, ops::DVERIFY, ops::EXP_PUB, ops::EXP_PRIV, ops::EXP_PAR, ops::PRINT, ops::COMPARE}; EVP_PKEY *p = (EVP_PKEY *) sut::KeyStoreGetKey(c.ks, x); SIM_CHECK(p, "setup", "no key"); return op_job(w[choose(9, "use")], c.kk[x], p, p); } return lookups();
        case 29: if (c.cert) { EVP_PKEY *p = X509_get0_pubkey(c.cert); SIM_CHECK(p, "setup", "no key"); return op_job(choose(2, "use") ? ops::VERIFY : ops::EXP_PUB, c.k[0], c.priv[0], p); } return draws();
        case 30: if (c.ks) return [&c] { std::string d = cont::differs(c.ks, c.box); SIM_CHECK(d.empty(), "wrong-result", "a shared container: %s", d.c_str()); }; return long_hash();
        default: return lookups();
        }
    };
    std::vector<std::vector<Job>> todo(nt);
    for (auto &t : todo) { uint32_t n = 1 + choose(3, "jobs"); while (n--) t.push_back(one()); if (last) t.push_back(last_holder(lastk, last)); }
    std::vector<std::function<void()>> f;
    for (auto &t : todo) f.push_back([&t] { for (auto &j : t) j(); ERR_clear_error(); OPENSSL_thread_stop(); });
    run_threads(f, pick_style());
    for (int i = 0; i < c.nk; i++)
    {
        { Quiet q; SIM_CHECK(model::export_priv(c.priv[i]) == model::pkcs8(c.k[i]) && model::export_pub(c.pub[i]) == model::spki(c.k[i]), "object-damaged", "a shared key was changed"); }
        EVP_PKEY_free(c.priv[i]); EVP_PKEY_free(c.pub[i]); c.k[i].clear();
    }
    if (c.ks) { std::string d = cont::differs(c.ks, c.box); SIM_CHECK(d.empty(), "object-damaged", "a shared container was changed: %s", d.c_str()); sut::KeyStoreFree(c.ks); }
    for (auto &k : c.kk) k.clear();
    lastk.clear();
    X509_free(c.cert);
    ops::drop_all();
}

void run_c13()
{
    rng.seed = 1 + choose(1u << 30, "rng");
    seedsrc.seed = choose(1u << 30, "seeds"); clk.on = true; clk.now = 1700000000;
    set_step_budget(4000000000ull);
    if (choose(3, "first use") == 2)
    {
        // nothing in the engine has been used yet
        Quiet q;
        RAND_set_rand_method(nullptr); ENGINE_finish(sut::e); sut::unload(sut::e);
        sut::e = sut::dyn_load(1);
        SIM_CHECK(sut::e && ENGINE_init(sut::e), "load-failed", "the engine cannot be loaded again");
        if (choose(2, "defaults")) ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
        RAND_set_rand_method(&rand_meth);
        SIM_CHECK(ops::attach(sut::e), "load-failed", "algorithms are missing after loading again");
        fault(F_RESTART);
    }
    bool fwd = choose(3, "generator") == 2;
    if (fwd) rng_forward = ENGINE_get_RAND(sut::e);
    rng.budget = 1000000;
    uint32_t from = choice_pos(); bool again = false;
    set_op("mixed use");
    leak_check([&] { if (again) reread(from); again = true; mix(); }, "mixed use by several threads");
    rng_forward = nullptr;
}

// ---------------------------------------------------------------- C12
long load_allocs;

struct Obj
{
    enum Kind { KEY, SIGNCTX, GENCTX, MD, CIPHER, DSIGN, CERT, STORE } kind;
    model::Key k; EVP_PKEY *priv = nullptr, *pub = nullptr; EVP_PKEY_CTX *pc = nullptr; EVP_MD_CTX *mc = nullptr; EVP_CIPHER_CTX *cc = nullptr; X509 *x = nullptr;
    cont::Box box; sut::KeyStore *ks = nullptr;
    Bytes m, sbox, key, iv, out;
    bool tables = false;                       // made when the algorithms were registered
};

struct Life
{
    std::vector<ENGINE *> h;                   // structural references the application holds
    std::vector<ENGINE *> loaded;              // one per load
    void *pin = nullptr;                       // a dlopen of the application's own keeps the code in memory
    int inits = 0; bool rand = false, released = true, listed = false; int gen = 0;
    std::vector<Obj *> o;
    std::vector<unsigned long> errors;
} L;

const char *sox() { static std::string s; s = sut::libdir + "/engine/dstu.so"; return s.c_str(); }
bool mapped() { void *h = dlopen(sox(), RTLD_NOW | RTLD_NOLOAD); if (h) dlclose(h); return h != nullptr; }

void process_usable()
{
    set_op("use of other algorithms");
    unsigned char o[32]; unsigned n = 0;
    SIM_CHECK(EVP_Digest("abc", 3, o, &n, EVP_sha256(), nullptr) == 1 && n == 32 && o[0] == 0xba && o[31] == 0xad, "process-unusable", "other algorithms do not work any more");
    unsigned char b[16]; SIM_CHECK(RAND_bytes(b, sizeof b) == 1, "process-unusable", "no random bytes");
}

void gone(const char *when)
{
    set_op("lookups after release");
    int d = OBJ_txt2nid(model::OID_HASH), c = OBJ_txt2nid(model::OID_CFB);
    SIM_CHECK(!EVP_get_digestbyname("dstu34311") && !EVP_get_digestbyname(OBJ_nid2ln(d)) && !EVP_get_digestbyname(OBJ_nid2sn(d)), "still-there", "the digest is still found by name %s", when);
    SIM_CHECK(!EVP_get_cipherbyname("dstu28147-cfb") && !EVP_get_cipherbyname(OBJ_nid2ln(c)) && !EVP_get_cipherbyname(OBJ_nid2sn(c)), "still-there", "the cipher is still found by name %s", when);
    ENGINE *x = ENGINE_by_id("dstu"); SIM_CHECK(!x, "still-there", "the engine is still found by its name %s", when);
    SIM_CHECK(!ENGINE_get_digest_engine(d) && !ENGINE_get_cipher_engine(c), "still-there", "an engine is still registered for the digest or the cipher %s", when);
    for (const char *oid : {model::OID_LE, model::OID_BE})
    {
        int n = OBJ_txt2nid(oid);
        SIM_CHECK(!ENGINE_get_pkey_meth_engine(n) && !ENGINE_get_pkey_asn1_meth_engine(n), "still-there", "an engine is still registered for the key types %s", when);
        EVP_PKEY_CTX *p = EVP_PKEY_CTX_new_id(n, nullptr); SIM_CHECK(!p, "still-there", "a key context can still be made %s", when);
        ENGINE *e = nullptr; const EVP_PKEY_ASN1_METHOD *a = EVP_PKEY_asn1_find(&e, n); SIM_CHECK(!a, "still-there", "the key format is still found %s", when);
    }
    { model::Key k; Uncounted u; BIGNUM *one = BN_new(); BN_one(one); k.set(1, true, {}, one); Bytes der = model::spki(k); BN_free(one); k.clear(); const unsigned char *p = der.data(); EVP_PKEY *pk = d2i_PUBKEY(nullptr, &p, (long) der.size()); SIM_CHECK(!pk, "still-there", "a key can still be imported %s", when); }
    if (L.pin) probe("released while the code stays in memory");
    else SIM_CHECK(!mapped(), "still-there", "the engine's code is still in memory %s", when);
    // what is left of its errors can be printed
    set_op("printing errors after release");
    char b[256];
    for (unsigned long e : L.errors) { ERR_error_string_n(e, b, sizeof b); ERR_reason_error_string(e); ERR_lib_error_string(e); ERR_func_error_string(e); }
    BIO *io; { Quiet q; io = BIO_new(BIO_s_null()); } ERR_print_errors(io); BIO_free(io);
    process_usable();
    probe("nothing left behind after release");
}

void forget() { for (auto *p : {&L.h, &L.loaded}) p->clear(); L.inits = 0; L.released = true; L.listed = false; }

bool load(bool fault_it, int list_add)
{
    set_op("loading the engine");
    bool armed = false, locks = false;
    if (fault_it)
    {
        if (choose(6, "kind of fault") == 5) { lockplan.fail_new = 1 + (int) choose(2, "locks"); locks = true; }
        else { armed = true; uint32_t k = strat((uint32_t) load_allocs + 10, "allocation"); bool persist = choose(4, "persist") == 3; ev("allocation %u fails%s", k, persist ? " and all later ones" : ""); arm_alloc(k, persist); }
    }
    lockplan.fired = false;
    ENGINE *x = sut::dyn_load(list_add);
    bool hit = armed && disarm_alloc(); lockplan.fail_new = 0; if (locks && lockplan.fired) hit = true;
    ev("load list %d -> %d%s", list_add, x != nullptr, hit ? " with a fault" : "");
    SIM_CHECK(x || hit, "load-failed", "the engine cannot be loaded although nothing is wrong");
    if (!x) { ERR_clear_error(); probe("load failed part-way"); return false; }
    if (hit) probe("loaded in spite of a fault");
    L.h.push_back(x); L.loaded.push_back(x); L.released = false;
    { ENGINE *y = ENGINE_by_id("dstu"); L.listed = y != nullptr; SIM_CHECK(hit || L.listed == (list_add != 0), "failed", "a loaded engine is %sfound by its name", list_add ? "not " : ""); ENGINE_free(y); ERR_clear_error(); }
    fault(F_RESTART);
    sut::e = x;
    if (!ops::attach(x)) { SIM_CHECK(hit, "load-failed", "algorithms are missing after loading"); }
    L.gen++;
    return true;
}

// libcrypto refuses a module that is loaded already; that must not hurt the one in use
void second_load()
{
    set_op("loading again");
    bool f = choose(3, "faulty load") == 2; if (f) arm_alloc((long) choose((uint32_t) load_allocs + 10, "allocation"), choose(4, "persist") == 3);
    ENGINE *x = sut::dyn_load((int) choose(2, "listed"));
    if (f) disarm_alloc();
    ERR_clear_error();
    if (x) { sut::unload(x); probe("loaded again after the objects had let go"); return; }   // nothing held it any more
    probe(L.released ? "loaded again while objects live" : "loaded again while loaded");
    ev("second load refused");
}

// a host that asks the module for an engine it does not have
void wrong_load()
{
    static const char *const ids[] = {"gost", "dst", "dstu4145", "DSTU", ""};
    const char *id = ids[choose(5, "name")];
    set_op("loading under another name");
    ENGINE *x = sut::dyn_load(1, id);
    SIM_CHECK(!x, "wrong-result", "the module gives itself out as the engine \"%s\"", id);
    ERR_clear_error();
    ev("load as \"%s\" refused", id);
    probe("load under another name refused");
}

// the engine is asked for what it does not have, and given what it cannot do
void foreign()
{
    set_op("asking for other algorithms");
    int nid = choose(4, "kind") == 1 ? 0 : (int) choose(1400, "number");
    bool own_md = nid == EVP_MD_type(ops::md), own_c = nid == EVP_CIPHER_nid(ops::cfb), own_k = nid == ops::nid_le || nid == ops::nid_be;
    if (!own_md)
    {
        // what libcrypto takes for success must come with a result
        const EVP_MD *d = nullptr;
        SIM_CHECK(!ENGINE_get_digests(sut::e)(sut::e, &d, nullptr, nid), "wrong-result", "the engine says it has a digest for number %d", nid);
    }
    if (!own_c)
    {
        const EVP_CIPHER *d = nullptr;
        SIM_CHECK(!ENGINE_get_ciphers(sut::e)(sut::e, &d, nullptr, nid), "wrong-result", "the engine says it has a cipher for number %d", nid);
    }
    if (!own_md) SIM_CHECK(!ENGINE_get_digest(sut::e, nid), "wrong-result", "the engine hands out a digest for number %d", nid);
    if (!own_c) SIM_CHECK(!ENGINE_get_cipher(sut::e, nid), "wrong-result", "the engine hands out a cipher for number %d", nid);
    if (!own_k) SIM_CHECK(!ENGINE_get_pkey_meth(sut::e, nid) && !ENGINE_get_pkey_asn1_meth(sut::e, nid), "wrong-result", "the engine hands out key methods for number %d", nid);
    if (!own_c)
    {
        const int *n = nullptr; int k = ENGINE_get_ciphers(sut::e)(sut::e, nullptr, &n, 0); SIM_CHECK(k == 1 && n && n[0] == EVP_CIPHER_nid(ops::cfb), "wrong-result", "the list of ciphers is wrong");
        k = ENGINE_get_digests(sut::e)(sut::e, nullptr, &n, 0); SIM_CHECK(k == 1 && n && n[0] == EVP_MD_type(ops::md), "wrong-result", "the list of digests is wrong");
        k = ENGINE_get_pkey_meths(sut::e)(sut::e, nullptr, &n, 0); SIM_CHECK(k == 2 && n, "wrong-result", "the list of key methods is wrong");
        k = ENGINE_get_pkey_asn1_meths(sut::e)(sut::e, nullptr, &n, 0); SIM_CHECK(k == 2 && n, "wrong-result", "the list of key formats is wrong");
    }
    unsigned char o[64]; unsigned l = 0; Bytes want;
    SIM_CHECK(EVP_Digest("abc", 3, o, &l, EVP_sha256(), nullptr) == 1 && o[0] == 0xba, "process-unusable", "other algorithms do not work while the engine is loaded");
    EVP_MD_CTX *c = EVP_MD_CTX_new(); (void) (EVP_DigestInit_ex(c, EVP_sha256(), sut::e) == 1 && EVP_DigestUpdate(c, "abc", 3) == 1 && EVP_DigestFinal_ex(c, o, &l) == 1); EVP_MD_CTX_free(c);
    ERR_clear_error();
    ev("other algorithms");
    probe("asked for algorithms of others");
}

void use_rand(int how)
{
    if (L.rand) { RAND_set_rand_method(&rand_meth); L.rand = false; ev("generator taken out"); return; }
    set_op("installing the generator");
    if (how) SIM_CHECK(RAND_set_rand_engine(sut::e) == 1, "failed", "the generator cannot be installed");
    else { SIM_CHECK(ENGINE_set_default_RAND(sut::e) == 1, "failed", "the generator cannot be made the default"); RAND_set_rand_method(nullptr); }
    L.rand = true;
    Bytes a(24), b(24);
    SIM_CHECK(RAND_bytes(a.data(), 24) == 1 && RAND_status() == 1 && RAND_bytes(b.data(), 24) == 1 && a != b, "failed", "the installed generator does not work");
    ev("generator installed");
    probe("engine's generator installed");
}

Obj *make_obj()
{
    Obj *b = new Obj; b->kind = (Obj::Kind) choose(8, "object"); ENGINE *via = choose(2, "by handle") ? sut::e : nullptr;
    set_op("making an object");
    int ok = 1;
    if (b->kind <= Obj::GENCTX || b->kind == Obj::DSIGN || b->kind == Obj::CERT)
    {
        pick_any_key(&b->k);
        Quiet q; b->priv = model::import_priv(b->k); b->pub = model::import_pub(b->k);
        SIM_CHECK(b->priv && b->pub, "failed", "a key cannot be imported while the engine is loaded");
    }
    switch (b->kind)
    {
    case Obj::SIGNCTX: b->pc = EVP_PKEY_CTX_new(b->priv, via); ok = b->pc && EVP_PKEY_sign_init(b->pc) == 1; break;
    case Obj::GENCTX: b->pc = EVP_PKEY_CTX_new_id(b->k.le ? ops::nid_le : ops::nid_be, via); ok = b->pc && EVP_PKEY_keygen_init(b->pc) == 1 && EVP_PKEY_CTX_ctrl(b->pc, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, (void *) b->k.g()) > 0 && EVP_PKEY_CTX_ctrl(b->pc, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, (void *) ops::table(b->k)) > 0; break;
    case Obj::MD:
    {
        b->mc = EVP_MD_CTX_new(); if (choose(2, "table")) b->sbox = pick_sbox();
        const EVP_MD *m = via || choose(2, "by name") == 0 ? ops::md : EVP_get_digestbyname("dstu34311");
        ok = m && EVP_DigestInit_ex(b->mc, m, via) == 1 && (b->sbox.empty() || EVP_MD_CTX_ctrl(b->mc, CTRL_SBOX, 64, b->sbox.data()) == 1);
        break;
    }
    case Obj::CIPHER:
    {
        b->cc = EVP_CIPHER_CTX_new(); b->key = rbytes(32, "key"); b->iv = rbytes(8, "iv"); if (choose(2, "table")) b->sbox = pick_sbox();
        const EVP_CIPHER *m = via || choose(2, "by name") == 0 ? ops::cfb : EVP_get_cipherbyname("dstu28147-cfb");
        ok = m && EVP_EncryptInit_ex(b->cc, m, via, b->key.data(), b->iv.data()) == 1 && (b->sbox.empty() || EVP_CIPHER_CTX_ctrl(b->cc, CTRL_SBOX, 64, b->sbox.data()) == 1);
        break;
    }
    case Obj::DSIGN: b->mc = EVP_MD_CTX_new(); ok = EVP_DigestSignInit(b->mc, nullptr, ops::md, via, b->priv) == 1; break;
    case Obj::CERT:
    {
        Bytes der; { Quiet q; BIGNUM *e = BN_new(); BN_set_word(e, 4242); der = model::cert(b->k, b->k, 9, "n", 0xc0, e, {}); BN_free(e); }
        const unsigned char *p = der.data(); b->x = d2i_X509(nullptr, &p, (long) der.size()); ok = b->x && X509_get0_pubkey(b->x);
        break;
    }
    case Obj::STORE: b->box = choose(2, "type") ? cont::make(cont::P12) : cont::make(cont::JKS); ok = cont::parse(b->box, b->box.bytes, b->box.store.u8, b->box.key.u8, &b->ks, 0) == 1; break;
    default: break;
    }
    static const char *names[] = {"key", "signing context", "generation context", "digest", "cipher", "signing digest", "certificate", "key container"};
    SIM_CHECK(ok, "failed", "a %s cannot be made while the engine is loaded", names[b->kind]);
    ev("made %s", names[b->kind]);
    return b;
}

void use_op(const model::Key &k, uint32_t which, EVP_PKEY *priv, EVP_PKEY *pub)
{
    ops::Op op = ops::make(which, k, priv, pub);
    set_op(ops::names[which]);
    int rc = op();
    ERR_clear_error();
    SIM_CHECK(rc == 1, "failed", "%s fails (%s, engine %s)", ops::names[which], model::curve_name(k.curve).c_str(), L.released ? "released" : "loaded");
    ops::drop_all();
    ev("%s", ops::names[which]);
}

void step_obj(Obj *b)
{
    bool by_name = !L.released;
    switch (b->kind)
    {
    case Obj::KEY:
    {
        static const uint32_t w[] = {ops::SIGN, ops::VERIFY, ops::EXP_PUB, ops::EXP_PRIV, ops::EXP_PAR, ops::PRINT, ops::COMPARE, ops::DSIGN, ops::DVERIFY, ops::MSG_SIGN, ops::MSG_VERIFY};
        use_op(b->k, w[choose(by_name ? 11 : 6, "use")], b->priv, b->pub);
        break;
    }
    case Obj::SIGNCTX:
    {
        set_op("signing with an old context");
        Bytes d = rbytes(32, "digest"); unsigned char o[400]; size_t l = sizeof o;
        EVP_PKEY_CTX *c = b->pc; bool dup = choose(4, "copy") == 3; if (dup) c = EVP_PKEY_CTX_dup(b->pc);
        SIM_CHECK(c && EVP_PKEY_sign(c, o, &l, d.data(), d.size()) == 1, "failed", "a context made before cannot sign"); ops::check_sig(b->k, d, o, l);
        if (dup) EVP_PKEY_CTX_free(c);
        ev("signed");
        break;
    }
    case Obj::GENCTX:
    {
        set_op("generating with an old context");
        EVP_PKEY *n = nullptr; int ok = EVP_PKEY_keygen(b->pc, &n);
        SIM_CHECK(ok == 1 || !by_name, "failed", "a context made before cannot generate a key");
        if (ok == 1) { Quiet q; model::Key got; SIM_CHECK(model::read_pkcs8(model::export_priv(n), &got) && got.curve == b->k.curve && got.le == b->k.le && ops::full_table(got.sbox) == ops::full_table(b->k.sbox), "wrong-result", "a key generated with an old context has other parameters"); got.clear(); }
        else probe("released engine refuses to generate");
        EVP_PKEY_free(n);
        ev("generated %d", ok);
        break;
    }
    case Obj::MD: case Obj::DSIGN:
    {
        set_op("hashing with an old context");
        Bytes p = rbytes(choose(80, "n"), "piece"); b->m.insert(b->m.end(), p.begin(), p.end());
        SIM_CHECK(EVP_DigestUpdate(b->mc, p.data(), p.size()) == 1, "failed", "a digest made before cannot go on");
        if (choose(3, "copy and finish") == 2)
        {
            unsigned char o[400]; unsigned n = 0; size_t l = sizeof o; EVP_MD_CTX *c = EVP_MD_CTX_new();
            SIM_CHECK(EVP_MD_CTX_copy_ex(c, b->mc) == 1, "failed", "a digest made before cannot be copied");
            if (b->kind == Obj::MD)
            {
                SIM_CHECK(EVP_DigestFinal_ex(c, o, &n) == 1, "failed", "a digest made before cannot be finished");
                Quiet q; SIM_CHECK(n == 32 && Bytes(o, o + 32) == model::hash(b->m, ops::full_table(b->sbox).data()), "wrong-result", "a digest made before ends wrongly");
            }
            else { SIM_CHECK(EVP_DigestSignFinal(c, o, &l) == 1, "failed", "a signing digest made before cannot be finished"); Bytes h; { Quiet q; h = model::hash(b->m, ops::table(b->k)); } ops::check_sig(b->k, h, o, l); }
            EVP_MD_CTX_free(c);
        }
        ev("digest went on");
        break;
    }
    case Obj::CIPHER:
    {
        set_op("encrypting with an old context");
        Bytes p = rbytes(1 + choose(60, "n"), "piece"), o(p.size() + 8); int n = 0; size_t at = b->m.size(); b->m.insert(b->m.end(), p.begin(), p.end());
        SIM_CHECK(EVP_EncryptUpdate(b->cc, o.data(), &n, p.data(), (int) p.size()) == 1 && n == (int) p.size(), "failed", "a cipher made before cannot go on");
        Quiet q; Bytes want = model::cfb(b->key.data(), ops::full_table(b->sbox).data(), b->iv.data(), b->m, true);
        SIM_CHECK(!memcmp(o.data(), &want[at], p.size()), "wrong-result", "a cipher made before goes on wrongly");
        ev("cipher went on");
        break;
    }
    case Obj::CERT: { EVP_PKEY *p = X509_get0_pubkey(b->x); SIM_CHECK(p, "failed", "a certificate lost its key"); use_op(b->k, choose(2, "use") ? ops::VERIFY : ops::EXP_PUB, b->priv, p); break; }
    case Obj::STORE: { std::string d = cont::differs(b->ks, b->box); SIM_CHECK(d.empty(), "wrong-result", "a container read before: %s", d.c_str()); ev("container looked at"); break; }
    }
    probe(L.released ? "object used after release" : L.inits ? "object used" : "object used without functional reference");
}

void drop_obj(size_t i)
{
    Obj *b = L.o[i]; L.o.erase(L.o.begin() + (long) i);
    set_op("dropping an object");
    EVP_PKEY_CTX_free(b->pc); EVP_MD_CTX_free(b->mc); EVP_CIPHER_CTX_free(b->cc); X509_free(b->x); if (b->ks) sut::KeyStoreFree(b->ks);
    if (choose(2, "order")) { EVP_PKEY_free(b->pub); EVP_PKEY_free(b->priv); } else { EVP_PKEY_free(b->priv); EVP_PKEY_free(b->pub); }
    ev("dropped object of kind %d", b->kind);
    delete b;
}

void release(bool finish_first)
{
    set_op("releasing the engine");
    auto fin = [&] { while (L.inits) { SIM_CHECK(ENGINE_finish(sut::e) == 1, "failed", "finish fails"); L.inits--; } };
    if (finish_first) fin();
    for (ENGINE *x : L.loaded) { ENGINE_unregister_digests(x); ENGINE_unregister_ciphers(x); ENGINE_unregister_pkey_meths(x); ENGINE_unregister_pkey_asn1_meths(x); ENGINE_unregister_RAND(x); if (L.listed) ENGINE_remove(x); }
    ERR_clear_error();
    if (!finish_first) fin();
    for (ENGINE *x : L.h) SIM_CHECK(ENGINE_free(x) == 1, "failed", "a handle cannot be given back");
    forget();
    ev("released, %zu objects live", L.o.size());
    if (L.o.empty() && !L.rand) { gone("after release"); sut::e = nullptr; }
}

void history(uint32_t n)
{
    L = Life();
    // plug-in hosts keep a module in memory for good
    if (choose(4, "pinned") == 3) { L.pin = dlopen(sox(), RTLD_NOW); SIM_CHECK(L.pin, "load-failed", "the module cannot be loaded"); }
    for (uint32_t i = 0; i < n; i++)
    {
        if (L.released)
        {
            bool held = !L.o.empty() || L.rand;
            if (!held)
            {
                uint32_t faulty = choose(3, "faulty load");
                if (faulty == 1 && choose(3, "another name") == 2) { wrong_load(); gone("after a load under another name"); }
                if (load(faulty == 2, (int) choose(3, "unlisted") == 2 ? 0 : 1)) continue;
                gone("after a load that failed"); sut::e = nullptr;
                continue;
            }
            uint32_t k = choose(6, "after release");
            if (k == 3 && choose(3, "load again") == 2) { second_load(); continue; }
            if (k < 4 && !L.o.empty()) step_obj(L.o[choose((uint32_t) L.o.size(), "object")]);
            else if (L.rand && (k == 5 || L.o.empty())) { if (choose(2, "draw")) { Bytes a(16); SIM_CHECK(RAND_bytes(a.data(), 16) == 1, "failed", "the installed generator fails after release"); } else use_rand(0); }
            else drop_obj(choose((uint32_t) L.o.size(), "object"));
            if (L.o.empty() && !L.rand) { gone("after the last object was dropped"); sut::e = nullptr; }
            continue;
        }
        switch (choose(20, "step"))
        {
        case 0: case 1: { set_op("initialising"); SIM_CHECK(ENGINE_init(sut::e) == 1, "failed", "the engine cannot be initialised"); L.inits++; ev("init"); break; }
        case 2: if (L.inits) { set_op("finishing"); SIM_CHECK(ENGINE_finish(sut::e) == 1, "failed", "finish fails"); L.inits--; ev("finish"); probe(L.inits ? "finished, other references remain" : "finished"); break; }
            [[fallthrough]];
        case 3: { set_op("registering"); SIM_CHECK(ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND) == 1, "failed", "the engine cannot be made the default"); ev("made default"); break; }
        case 4: { if (!L.listed) break; ENGINE *x = ENGINE_by_id("dstu"); SIM_CHECK(x, "failed", "the loaded engine is not found by its name"); if (choose(2, "keep")) L.h.push_back(x); else ENGINE_free(x); ev("looked up"); break; }
        case 5: if (L.h.size() > 1) { ENGINE *x = L.h.back(); L.h.pop_back(); bool first = x == L.loaded[0]; (void) first; SIM_CHECK(ENGINE_free(x) == 1, "failed", "a handle cannot be given back"); ev("handle given back"); } break;
        case 6: case 7: if (L.o.size() < 6) { L.o.push_back(make_obj()); probe("object made"); } break;
        case 8: case 9: case 10: if (!L.o.empty()) step_obj(L.o[choose((uint32_t) L.o.size(), "object")]); break;
        case 11: if (!L.o.empty()) drop_obj(choose((uint32_t) L.o.size(), "object")); break;
        case 12: use_rand((int) choose(2, "how")); break;
        case 13: release(choose(2, "finish first") != 0); break;
        case 14:
        {
            // an error of the engine's own, to be looked at now or later
            set_op("provoking an error");
            EVP_PKEY *pk = nullptr; const unsigned char *p; Bytes der; ERR_clear_error();
            { Uncounted u; model::Key k; BIGNUM *d = BN_new(); BN_set_word(d, 5); k.set(2, true, {}, d); der = choose(2, "which") ? model::spki(k) : model::pkcs8(k); BN_free(d); k.clear(); }
            bool priv = der.size() > 2 && der[2] == 2; der = der_mangle(der); p = der.data();
            if (priv) { PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long) der.size()); if (i) pk = EVP_PKCS82PKEY(i); PKCS8_PRIV_KEY_INFO_free(i); } else pk = d2i_PUBKEY(nullptr, &p, (long) der.size());
            EVP_PKEY_free(pk);
            if (choose(2, "wrong digest"))
            {
                model::Key k; { Uncounted u; BIGNUM *d = BN_new(); BN_set_word(d, 6); k.set(2, false, {}, d); BN_free(d); } { Quiet q; pk = model::import_priv(k); } { Uncounted u; k.clear(); }
                EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk, nullptr); SIM_CHECK(c && EVP_PKEY_sign_init(c) == 1, "failed", "no context");
                SIM_CHECK(EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_SIGN, EVP_PKEY_CTRL_MD, 0, (void *) EVP_sha256()) <= 0, "wrong-result", "a foreign digest was accepted");
                EVP_PKEY_CTX_free(c); EVP_PKEY_free(pk);
            }
            unsigned long x = 0, y; bool own = false;
            for (int i = 0; i < 20 && (y = ERR_get_error()); i++) { const char *l = ERR_lib_error_string(y); x = y; if (l && !strcmp(l, "dstu")) { own = true; break; } }
            if (x && L.errors.size() < 8) L.errors.push_back(x);
            if (own) probe("error of the engine kept");
            if (choose(2, "leave")) ERR_clear_error();
            ev("error %s", x ? "recorded" : "not recorded");
            break;
        }
        case 15:
        {
            second_load();
            break;
        }
        case 16: foreign(); break;
        case 17: if (!L.pin) { set_op("loading under another name"); wrong_load(); } break;
        default:
        {
            model::Key k; pick_any_key(&k); EVP_PKEY *a, *b; { Quiet q; a = model::import_priv(k); b = model::import_pub(k); SIM_CHECK(a && b, "failed", "a key cannot be imported while the engine is loaded"); }
            use_op(k, choose(ops::N, "operation"), a, b);
            EVP_PKEY_free(a); EVP_PKEY_free(b); { Uncounted u; k.clear(); }
            probe(L.inits ? "operation with functional reference" : "operation after loading only");
        }
        }
    }
    if (choose(2, "objects first")) while (!L.o.empty()) drop_obj(choose((uint32_t) L.o.size(), "object"));
    bool was = !L.released;
    if (L.rand && choose(2, "generator first")) use_rand(0);
    if (!L.released) release(choose(2, "finish first") != 0);
    bool held = !L.o.empty() || L.rand;
    while (!L.o.empty()) drop_obj(choose((uint32_t) L.o.size(), "object"));
    if (L.rand) use_rand(0);
    if (held) gone("after the last object was dropped");
    (void) was;
    if (L.pin) { dlclose(L.pin); L.pin = nullptr; SIM_CHECK(!mapped(), "still-there", "the engine's code is still in memory at the end"); }
    sut::e = nullptr;
    RAND_set_rand_method(&rand_meth);
    ERR_clear_error();
}

void setup12()
{
    setup13();
    // the whole life once, so that libcrypto's own tables exist, and to learn how long a load is
    RAND_set_rand_method(nullptr); ENGINE_finish(sut::e); sut::unload(sut::e);
    RAND_set_rand_method(&rand_meth);
    sut::e = sut::dyn_load(1); sut::unload(sut::e);
    count_allocs(); sut::e = sut::dyn_load(1); load_allocs = alloc_seen();
    sut::unload(sut::e); sut::e = nullptr;
    if (load_allocs < 10) load_allocs = 200;
}

void run_c12()
{
    rng.seed = 1 + choose(1u << 30, "rng"); rng.budget = 1000000;
    seedsrc.seed = choose(1u << 30, "seeds"); clk.on = true; clk.now = 1700000000; lockplan.on = true;
    set_step_budget(4000000000ull);
    set_op("life of the engine");
    uint32_t n = 4 + choose(24, "steps"), from = choice_pos(); bool again = false;
    leak_check([&] { if (again) reread(from); again = true; history(n); }, "a history of loading, using and releasing the engine");
}
}
extern const Workload wl_c12 = {"C12", setup12, run_c12, 3000, 300000};
extern const Workload wl_c13 = {"C13", setup13, run_c13, 1800, 300000};
