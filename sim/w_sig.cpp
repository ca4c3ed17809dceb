// C05, C06, C15: signing, verification and key generation under a hostile random source and memory.
#include "sim.h"
#include "model.h"
#include "common.h"
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/objects.h>
#include <set>
#include <map>
#include <cmath>
using namespace sim;

namespace {
const EVP_MD *md;
const int CTRL_SBOX = 0x1000 + 1, CTRL_CURVE = 0x1000 + 2;
int nid_le, nid_be;

void setup()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    md = ENGINE_get_digest(sut::e, OBJ_txt2nid(model::OID_HASH));
    nid_le = OBJ_txt2nid(model::OID_LE); nid_be = OBJ_txt2nid(model::OID_BE);
    if (!md || !nid_le || !nid_be) { fprintf(stderr, "engine lacks algorithms\n"); _exit(77); }
}

void pick_curve_key(model::Key *k)
{
    switch (choose(8, "curve class"))
    {
    case 0: case 1: make_key(k, 0, 5); break;
    case 2: make_key(k, 0, 10); break;
    case 3: make_key(k, model::first_custom, model::first_tiny); break;
    case 4: make_key(k, 6, 7); break;
    default: make_key(k, model::first_tiny, (int) model::curves.size());
    }
}

Bytes pick_digest(const EC_GROUP *g)
{
    int m = EC_GROUP_get_degree(g);
    switch (choose(9, "digest kind"))
    {
    case 0: case 1: case 2: return rbytes(32, "digest");
    case 3: return Bytes(1 + choose(70, "n"), 0);
    case 4: return Bytes(1 + choose(70, "n"), 0xff);
    case 5: return rbytes(1 + choose(80, "n"), "digest");
    case 6: { Bytes b(m / 8 + 2 + choose(20, "n"), 0); b[m / 8] = (unsigned char) (0xff << (m % 8)); b[b.size() - 1] |= 1; return b; }   // zero once cut to the field
    case 7: { Bytes b(32, 0); b[choose(32, "at")] = (unsigned char) (1 << choose(8, "bit")); return b; }
    default: { Bytes b = rbytes(32, "digest"); for (int i = 0; i < 32 && i < (m + 7) / 8; i++) b[i] = 0; return b; }
    }
}

const unsigned char *table(const model::Key &k) { return k.sbox.empty() ? model::default_sbox : k.sbox.data(); }

// checks a returned signature in every respect; returns the nonce that made it
BIGNUM *check_sig(const model::Key &k, const Bytes &digest, const Bytes &sig)
{
    Quiet q;
    const EC_GROUP *g = k.g(); int ob = model::obytes(g);
    const unsigned char *p = sig.data(); model::Der d;
    bool ok = model::der_next(p, sig.data() + sig.size(), &d) && d.tag == 4 && p == sig.data() + sig.size() && (int) d.len == 2 * ob;
    SIM_CHECK(ok, "bad-encoding", "signature %s is not an OCTET STRING of %d bytes (%s)", hex(sig).c_str(), 2 * ob, model::curve_name(k.curve).c_str());
    Bytes raw(d.p, d.p + d.len);
    if (k.le) raw = model::rev(raw);
    BIGNUM *s = BN_bin2bn(raw.data(), ob, nullptr), *r = BN_bin2bn(raw.data() + ob, ob, nullptr), *e = BN_new();
    SIM_CHECK(model::verify(g, k.q, digest, r, s), "invalid-signature", "signature %s by key %s on %s over digest %s does not satisfy the standard's equation", hex(raw).c_str(), hex(model::bnb(k.d, ob)).c_str(), model::curve_name(k.curve).c_str(), hex(digest).c_str());
    BN_CTX *c = BN_CTX_new();
    BN_mod_mul(e, k.d, r, EC_GROUP_get0_order(g), c); BN_mod_sub(e, s, e, EC_GROUP_get0_order(g), c);
    BN_CTX_free(c);
    SIM_CHECK(!BN_is_zero(e), "zero-nonce", "the nonce is zero");
    BN_free(s); BN_free(r);
    return e;
}

struct Nonces {
    std::vector<BIGNUM *> v; const BIGNUM *n; bool tiny;
    void add(BIGNUM *e, bool may_repeat)
    {
        Quiet q;
        if (!tiny && !may_repeat)
        {
            for (BIGNUM *o : v) SIM_CHECK(BN_cmp(o, e) != 0, "nonce-reused", "two signatures used the same nonce");
            BIGNUM *lo = BN_new(); BN_rshift(lo, n, 40);
            SIM_CHECK(BN_cmp(e, lo) >= 0, "small-nonce", "a nonce lies in the lowest 2^-40 of the range");
            BN_free(lo);
        }
        v.push_back(e);
    }
    void spread(const char *what, const std::set<unsigned long> *allowed = nullptr)
    {
        Quiet q;
        int nb = BN_num_bits(n);
        if (tiny)
        {
            std::map<unsigned long, unsigned long> s; for (auto e : v) s[BN_get_word(e)]++;
            unsigned long nn = BN_get_word(n);
            if (allowed)   // equally likely: ten standard deviations each way
            {
                double mean = (double) v.size() / (double) allowed->size(), dev = 10 * sqrt(mean) + 10;
                for (auto &x : s) SIM_CHECK(allowed->count(x.first), "range", "%s %lu cannot make a signature over this digest", what, x.first);
                for (unsigned long x : *allowed)
                    SIM_CHECK(fabs((double) s[x] - mean) < dev, "not-uniform", "%s %lu of %zu possible ones occurs %lu times in %zu draws: not drawn afresh and evenly each time", what, x, allowed->size(), s[x], v.size());
                return;
            }
            // v.size() >= 40 n draws: each value missing with probability e^-40
            for (unsigned long x = 1; x < nn; x++) SIM_CHECK(s.count(x), "range", "%s %lu of 1..%lu never occurs in %zu draws", what, x, nn - 1, v.size());
            return;
        }
        BIGNUM *half = BN_new(); BN_rshift1(half, n); bool hi = false, lo = false;
        for (auto e : v) (BN_cmp(e, half) > 0 ? hi : lo) = true;
        SIM_CHECK(hi && lo, "range", "all %zu %ss lie in one half of the range", v.size(), what);
        for (int b = 0; b < nb - 1; b++)
        {
            bool z = false, o = false;
            for (auto e : v) (BN_is_bit_set(e, b) ? o : z) = true;
            SIM_CHECK(z && o, "range", "bit %d of %zu %ss is always %d", b, v.size(), what, o ? 1 : 0);
        }
        BN_free(half);
    }
};

// random source: the simulated one (with planned faults) or the engine's own generator over a faulty seed source
bool engine_rand;
void pick_source()
{
    engine_rand = choose(6, "source") == 5;
    if (engine_rand)
    {
        clk.on = true; clk.now = 1700000000 + choose(100000, "time");
        seedsrc.seed = choose(0xffffffffu, "seedseed");
        seedsrc.per_call = choose(2, "seed faults") != 0; seedsrc.per_call_den = 2;
        rng_forward = ENGINE_get_RAND(sut::e);
        probe("engine generator as random source");
    }
    else pick_rng_faults();
}
struct SourceState { long failed, odd, sf, calls; };
SourceState src() { return {rng.failed, (long) S->faults[F_RNG_ODD], seedsrc.failures, rng.calls}; }
bool src_faulted(const SourceState &a) { SourceState b = src(); return b.failed != a.failed || b.odd != a.odd || b.sf != a.sf; }

// one signing call; returns rc, fills sig
int do_sign(EVP_PKEY *pk, const model::Key &k, const Bytes &digest, const Bytes &message, int how, Bytes *sig, bool *size_fault)
{
    int ob; size_t want;
    { Quiet q; ob = model::obytes(k.g()); want = model::octets(Bytes(2 * ob, 0)).size(); }
    *size_fault = false;
    size_t cap = want; uint32_t cs = choose(6, "buffer");
    if (cs == 1) cap = want + choose(30, "extra"); else if (cs == 2) { cap = choose((uint32_t) want, "short"); fault(F_SMALLBUF); *size_fault = true; }
    Guarded out(Bytes(cap, 0xEE), (int) choose(2, "guard"));
    size_t n = cap; int rc = 0;
    if (how == 0)
    {
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk, choose(2, "eng") ? sut::e : nullptr);
        if (!c) return 0;
        if (EVP_PKEY_sign_init(c) == 1)
        {
            Guarded d(digest, (int) choose(2, "guard"));
            if (choose(2, "set md") && EVP_PKEY_CTX_set_signature_md(c, md) <= 0) { EVP_PKEY_CTX_free(c); return 0; }
            if (choose(2, "ask size"))
            {
                size_t z = choose(100, "z");
                if (EVP_PKEY_sign(c, nullptr, &z, d.p, d.n) == 1) SIM_CHECK(z == want || disarm_alloc(), "wrong-size", "reported signature size %zu, should be %zu", z, want);
            }
            rc = EVP_PKEY_sign(c, out.p, &n, d.p, d.n);
        }
        EVP_PKEY_CTX_free(c);
    }
    else
    {
        EVP_MD_CTX *c = EVP_MD_CTX_new(), *c2 = nullptr;
        if (!c) return 0;
        bool ok = EVP_DigestSignInit(c, nullptr, choose(4, "md") ? md : nullptr, choose(2, "eng") ? sut::e : nullptr, pk) == 1;
        size_t off = 0;
        while (ok && off < message.size())
        {
            size_t b = 1 + choose(70, "piece"); if (b > message.size() - off) b = message.size() - off;
            Guarded g(&message[off], b, (int) choose(2, "guard"));
            ok = EVP_DigestSignUpdate(c, g.p, b) == 1;
            memset(g.p, 0xdd, b);
            off += b;
            if (ok && chance(1, 6, "copy ctx"))
            {
                c2 = EVP_MD_CTX_new();
                if (!c2 || EVP_MD_CTX_copy_ex(c2, c) != 1) { ok = false; EVP_MD_CTX_free(c2); c2 = nullptr; }
                else { EVP_MD_CTX_free(c); c = c2; c2 = nullptr; probe("signing context copied"); }
            }
        }
        if (ok && choose(2, "ask size")) { size_t z = 0; if (EVP_DigestSignFinal(c, nullptr, &z) == 1) SIM_CHECK(z >= want || disarm_alloc(), "wrong-size", "reported signature size %zu, should be %zu", z, want); }
        if (ok) rc = EVP_DigestSignFinal(c, out.p, &n);
        EVP_MD_CTX_free(c);
    }
    if (rc == 1) { SIM_CHECK(n <= cap, "overrun", "signature of %zu bytes reported in a buffer of %zu", n, cap); sig->assign(out.p, out.p + n); }
    return rc;
}

void sign_some(EVP_PKEY *pk, const model::Key &k, Nonces *nn, uint32_t count, bool allocf)
{
    for (uint32_t i = 0; i < count; i++)
    {
        int how = choose(3, "how") == 2 ? 1 : 0;
        Bytes message = how ? rbytes(rsize(200, "message"), "message") : Bytes(), digest;
        if (how) { Quiet q; digest = model::hash(message, table(k)); } else digest = pick_digest(k.g());
        bool small = false; Bytes sig;
        bool fired = false;
        SourceState s0 = src();
        rng.budget = rng.calls + 3000;
        if (allocf) arm_alloc((long) (choose(4, "early") ? choose(160, "alloc k") : choose(25, "alloc k")), choose(3, "persist") == 2);
        int rc = do_sign(pk, k, digest, message, how, &sig, &small);
        if (allocf) fired = disarm_alloc();
        // in a small group the drawn nonce is zero now and then, which fails the call: ask again
        for (int t = 0; t < 60 && rc != 1 && !small && !fired && !src_faulted(s0) && model::curves[k.curve].tiny; t++)
        {
            probe("asked again after a zero nonce");
            rc = do_sign(pk, k, digest, message, how, &sig, &small);
        }
        ev("sign how=%d digest %zu -> %d %s", how, digest.size(), rc, rc == 1 ? hex(sig).c_str() : "");
        ERR_clear_error();
        if (rc != 1)
        {
            SIM_CHECK(small || fired || src_faulted(s0), "sign-failed", "signing with a key on %s over %s failed although nothing was wrong", model::curve_name(k.curve).c_str(), hex(digest).c_str());
            probe(small ? "signing refused for want of room" : fired ? "signing failed on allocation" : "signing failed on random source");
            continue;
        }
        SIM_CHECK(!small, "overrun", "signing succeeded with a buffer that is too small");
        BIGNUM *e = check_sig(k, digest, sig);
        if (!engine_rand) SIM_CHECK(rng.calls > s0.calls, "no-draw", "a signature was made without drawing randomness");
        nn->add(e, src_faulted(s0));
        probe(fired ? "signed in spite of a failed allocation" : src_faulted(s0) ? "signed in spite of a poor random source" : "signed");
        if (how == 1) probe("streamed message signed");
    }
}

void run_c05()
{
    uint32_t mode = strat(12, "mode");
    model::Key k; set_op("signing"); set_step_budget(2000000000);
    if (mode == 10) // spread of the nonces
    {
        engine_rand = choose(3, "source") == 2;
        if (engine_rand) { clk.on = true; clk.now = 1700000000; seedsrc.seed = choose(0xffffffffu, "seedseed"); rng_forward = ENGINE_get_RAND(sut::e); }
        else rng.seed = 1 + choose(1u << 30, "rng");
        bool tiny = choose(2, "tiny") != 0;
        if (tiny) make_key(&k, model::first_tiny, model::first_tiny + 3); else make_key(&k, 0, 2);
        EVP_PKEY *pk; { Quiet q; pk = model::import_priv(k); }
        SIM_CHECK(pk != nullptr, "import-failed", "a valid private key was rejected");
        Nonces nn{{}, model::curves[k.curve].order, tiny};
        unsigned long n = tiny ? BN_get_word(nn.n) * 40 : 44;
        if (n > 6000) n = 6000;
        unsigned long zero = 0;
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk, nullptr); EVP_PKEY_sign_init(c);
        Bytes fixed = rbytes(32, "digest");
        bool same = choose(2, "same digest") != 0;
        std::set<unsigned long> allowed;
        if (same && tiny)
        {
            Quiet q;
            BIGNUM *e = BN_new(), *r = BN_new(), *s = BN_new();
            // a digest for which many nonces have to be thrown away
            size_t most = (size_t) -1;
            for (int t = 0; t < 40 && most; t++)
            {
                Bytes dg = rbytes(32, "digest"); std::set<unsigned long> a;
                for (unsigned long x = 1; x < BN_get_word(nn.n); x++)
                {
                    BN_set_word(e, x); model::sign(k, dg, e, r, s);   // moves on to the next value when one is no good
                    BN_CTX *bc = BN_CTX_new();
                    BN_mod_mul(e, k.d, r, nn.n, bc); BN_mod_sub(e, s, e, nn.n, bc); BN_CTX_free(bc);
                    if (BN_get_word(e) == x) a.insert(x);
                }
                if (a.size() > 2 && a.size() < most) { most = a.size(); allowed = a; fixed = dg; }
            }
            BN_free(e); BN_free(r); BN_free(s);
            n = allowed.size() * 200; if (n > 5000) n = 5000;
        }
        for (unsigned long i = 0; i < n; i++)
        {
            Bytes dg = same ? fixed : rbytes(32, "digest"); unsigned char out[300]; size_t l = sizeof out;
            rng.budget = rng.calls + 3000;
            int rc = EVP_PKEY_sign(c, out, &l, dg.data(), dg.size());
            if (rc != 1 && tiny && ++zero < n / 2) continue;
            SIM_CHECK(rc == 1, "sign-failed", "signing failed although nothing was wrong");
            if (tiny && i > 100) // cheap: only recover the nonce
            {
                Quiet q; int ob = model::obytes(k.g()); Bytes raw(out + 2, out + l); if (k.le) raw = model::rev(raw);
                BIGNUM *s = BN_bin2bn(raw.data(), ob, nullptr), *r = BN_bin2bn(raw.data() + ob, ob, nullptr), *e = BN_new(); BN_CTX *x = BN_CTX_new();
                BN_mod_mul(e, k.d, r, nn.n, x); BN_mod_sub(e, s, e, nn.n, x); BN_CTX_free(x); BN_free(s); BN_free(r);
                nn.v.push_back(e);
            }
            else nn.add(check_sig(k, dg, Bytes(out, out + l)), false);
        }
        EVP_PKEY_CTX_free(c);
        nn.spread("nonce", allowed.empty() ? nullptr : &allowed);
        probe(tiny ? "nonce coverage of a small group" : "nonce spread");
        fault(F_RNG_ODD);
        return;
    }
    pick_curve_key(&k);
    EVP_PKEY *pk; { Quiet q; pk = model::import_priv(k); }
    SIM_CHECK(pk != nullptr, "import-failed", "a valid private key on %s was rejected", model::curve_name(k.curve).c_str());
    if (mode == 11) // keys that cannot sign
    {
        EVP_PKEY *p2; { Quiet q; p2 = model::import_pub(k); }
        if (!p2) discard("no public import");
        Bytes sig, d = rbytes(32, "digest"); bool sf;
        int rc = do_sign(p2, k, d, d, (int) choose(2, "how"), &sig, &sf);
        SIM_CHECK(rc != 1, "signed-without-key", "a public key alone produced a signature");
        probe("public key refused to sign"); fault(F_SPLICE);
        return;
    }
    bool allocf = mode >= 6;
    if (allocf) { engine_rand = false; rng.seed = 1 + choose(1u << 30, "rng"); } else pick_source();
    Nonces nn{{}, model::curves[k.curve].order, model::curves[k.curve].tiny};
    sign_some(pk, k, &nn, 1 + choose(4, "count"), allocf);
    // faults stop: signing works again
    rng.fail_at = -1; rng.odd = 0; seedsrc.per_call = false;
    sign_some(pk, k, &nn, 1, false);
    Quiet q;
    Bytes out = model::export_priv(pk), want = model::pkcs8(k);
    SIM_CHECK(out == want, "key-damaged", "the signing key changed");
    EVP_PKEY_free(pk);
}

// ---------------------------------------------------------------- C06
bool holds(const model::Key &k, const Bytes &digest, const Bytes &body)
{
    if (body.size() & 1 || body.empty()) return false;
    Bytes b = k.le ? model::rev(body) : body;
    BIGNUM *s = BN_bin2bn(b.data(), (int) b.size() / 2, nullptr), *r = BN_bin2bn(b.data() + b.size() / 2, (int) b.size() / 2, nullptr);
    bool v = model::verify(k.g(), k.q, digest, r, s);
    BN_free(s); BN_free(r);
    return v;
}
bool acceptable(const model::Key &k, const Bytes &digest, const Bytes &sig)
{
    Quiet q;
    if (digest.empty()) return false;
    if (holds(k, digest, sig)) return true;
    const unsigned char *p = sig.data();
    ASN1_OCTET_STRING *o = d2i_ASN1_OCTET_STRING(nullptr, &p, (long) sig.size());
    bool v = false;
    if (o) { v = holds(k, digest, Bytes(ASN1_STRING_get0_data(o), ASN1_STRING_get0_data(o) + ASN1_STRING_length(o))); ASN1_OCTET_STRING_free(o); }
    ERR_clear_error();
    return v;
}

int do_verify(EVP_PKEY *pk, const Bytes &digest, const Bytes &message, const Bytes &sig, int how)
{
    Guarded s(sig, (int) choose(2, "guard"));
    int rc = -1;
    if (how == 0)
    {
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk, choose(2, "eng") ? sut::e : nullptr);
        if (!c) return -1;
        Guarded d(digest, (int) choose(2, "guard"));
        if (EVP_PKEY_verify_init(c) == 1) rc = EVP_PKEY_verify(c, s.p, s.n, d.p, d.n);
        if (rc == 1 && choose(3, "again") == 2) { int r2 = EVP_PKEY_verify(c, s.p, s.n, d.p, d.n); if (!disarm_alloc()) SIM_CHECK(r2 == 1, "flaky-verify", "the same verification succeeded, then failed"); }
        EVP_PKEY_CTX_free(c);
        SIM_CHECK(!memcmp(d.p, digest.data(), digest.size()), "input-changed", "the digest buffer was modified");
    }
    else
    {
        EVP_MD_CTX *c = EVP_MD_CTX_new(), *c2;
        if (!c) return -1;
        bool ok = EVP_DigestVerifyInit(c, nullptr, choose(4, "md") ? md : nullptr, choose(2, "eng") ? sut::e : nullptr, pk) == 1;
        size_t off = 0;
        while (ok && off < message.size())
        {
            size_t b = 1 + choose(70, "piece"); if (b > message.size() - off) b = message.size() - off;
            Guarded g(&message[off], b, (int) choose(2, "guard"));
            ok = EVP_DigestVerifyUpdate(c, g.p, b) == 1;
            memset(g.p, 0xdd, b);
            off += b;
            if (ok && chance(1, 6, "copy ctx"))
            {
                c2 = EVP_MD_CTX_new();
                if (!c2 || EVP_MD_CTX_copy_ex(c2, c) != 1) { ok = false; EVP_MD_CTX_free(c2); }
                else { EVP_MD_CTX_free(c); c = c2; probe("verifying context copied"); }
            }
        }
        if (ok) rc = EVP_DigestVerifyFinal(c, s.p, s.n);
        EVP_MD_CTX_free(c);
    }
    SIM_CHECK(!memcmp(s.p, sig.data(), sig.size()), "input-changed", "the signature buffer was modified");
    return rc;
}

void run_c06()
{
    set_op("verifying"); set_step_budget(2000000000);
    model::Key k; pick_curve_key(&k);
    uint32_t fm = strat(4, "faults");   // 0,1 none 2 alloc 3 rng
    EVP_PKEY *pk; { Quiet q; pk = choose(3, "public") ? model::import_pub(k) : model::import_priv(k); }
    const EC_GROUP *g = k.g(); int ob = model::obytes(g);
    if (!pk) { SIM_CHECK(model::curves[k.curve].tiny, "import-failed", "a valid key was rejected"); discard("key not encodable"); }
    rng.seed = 1 + choose(1u << 30, "rng");
    uint32_t count = 1 + choose(5, "count");
    for (uint32_t i = 0; i < count; i++)
    {
        int how = choose(3, "how") == 2 ? 1 : 0;
        Bytes message = how ? rbytes(rsize(200, "message"), "message") : Bytes(), digest;
        if (how) { Quiet q; digest = model::hash(message, table(k)); } else digest = pick_digest(g);
        Bytes raw, sig; BIGNUM *r, *s; bool exact = true; const char *what = "intact";
        {
            Bytes eb = rbytes(60, "nonce");
            uint32_t tam = choose(24, "tamper"), wrap = choose(4, "wrap");
            Bytes d2 = digest, m2 = message;
            Quiet q;
            BIGNUM *e = BN_bin2bn(eb.data(), (int) eb.size(), nullptr); r = BN_new(); s = BN_new();
            model::sign(k, digest, e, r, s);
            BN_free(e);
            const BIGNUM *n = EC_GROUP_get0_order(g);
            auto enc = [&](int each) { Bytes o = model::cat({model::bnb(s, each), model::bnb(r, each)}); return k.le ? model::rev(o) : o; };
            raw = model::sig_raw(g, r, s, k.le);
            int each = ob;
            switch (tam)
            {
            case 6: { size_t b = choose((uint32_t) raw.size() * 8, "bit"); raw[b / 8] ^= (unsigned char) (1 << b % 8); what = "bit flipped in signature"; fault(F_BITFLIP); break; }
            case 7: if (!d2.empty()) { size_t b = choose((uint32_t) d2.size() * 8, "bit"); d2[b / 8] ^= (unsigned char) (1 << b % 8); if (how && !m2.empty()) { m2[choose((uint32_t) m2.size(), "at")] ^= 1; } what = "other digest"; fault(F_BITFLIP); } break;
            case 8: BN_add(r, r, n); each = ob + 1; raw = enc(each); what = "r + n"; fault(F_OVERWRITE); break;
            case 9: BN_add(s, s, n); each = ob + 1; raw = enc(each); what = "s + n"; fault(F_OVERWRITE); break;
            case 10: BN_zero(r); raw = enc(ob); what = "r = 0"; fault(F_OVERWRITE); break;
            case 11: BN_zero(s); raw = enc(ob); what = "s = 0"; fault(F_OVERWRITE); break;
            case 12: BN_copy(r, n); raw = enc(ob); what = "r = n"; fault(F_OVERWRITE); break;
            case 13: BN_copy(s, n); raw = enc(ob); what = "s = n"; fault(F_OVERWRITE); break;
            case 14: BN_sub(s, n, s); raw = enc(ob); what = "-s"; fault(F_OVERWRITE); break;
            case 15: BN_swap(r, s); raw = enc(ob); what = "swapped"; fault(F_OVERWRITE); break;
            case 16: raw = Bytes(2 * ob, 0); what = "zeros"; fault(F_OVERWRITE); break;
            case 17: raw = model::rev(raw); what = "other byte order"; fault(F_OVERWRITE); break;
            case 18: raw.resize(choose((uint32_t) raw.size() + 1, "cut")); what = "truncated"; fault(F_TRUNCATE); break;
            case 19: raw.insert(raw.end(), 1 + choose(8, "more"), 0); what = "extended"; fault(F_OVERWRITE); break;
            case 20: each = ob + 1 + (int) choose(6, "pad"); raw = enc(each); what = "padded"; fault(F_OVERWRITE); break;
            case 21: BN_lshift(r, n, 0); BN_sub_word(r, 1); raw = enc(ob); what = "r = n - 1"; fault(F_OVERWRITE); break;
            case 22: BN_lshift(s, n, (int) choose(20, "shift")); each = (BN_num_bits(s) + 7) / 8 > ob ? (BN_num_bits(s) + 7) / 8 : ob; raw = enc(each); what = "multiple of n"; fault(F_OVERWRITE); break;
            case 23: raw = rbytes(choose(3, "sz") ? 2 * ob : choose(200, "len"), "noise"); what = "noise"; fault(F_OVERWRITE); break;
            default: break;
            }
            sig = wrap <= 1 ? model::octets(raw) : wrap == 2 ? raw : model::octets(raw);
            if (wrap == 3)
            {
                switch (choose(8, "container"))
                {
                case 0: sig.insert(sig.end(), 1 + choose(9, "trail"), 0); exact = false; break;
                case 1: sig = model::cat({{4, 0x81, (unsigned char) raw.size()}, raw}); exact = false; break;
                case 2: sig = model::tlv(0x24, model::cat({model::octets(Bytes(raw.begin(), raw.begin() + raw.size() / 2)), model::octets(Bytes(raw.begin() + raw.size() / 2, raw.end()))})); exact = false; break;
                case 3: if (!sig.empty()) { sig[1] ^= (unsigned char) (1 << choose(8, "bit")); } exact = false; fault(F_LENFIELD); break;
                case 4: if (!sig.empty()) { sig[0] = (unsigned char) choose(256, "tag"); } exact = false; fault(F_LENFIELD); break;
                case 5: sig.resize(choose((uint32_t) sig.size() + 1, "cut")); exact = false; fault(F_TRUNCATE); break;
                case 6: sig = model::octets(sig); exact = false; break;
                default: sig.clear(); exact = false;
                }
            }
            if (wrap == 2) // raw, unless it happens to parse as an OCTET STRING
            {
                const unsigned char *p = sig.data(); ASN1_OCTET_STRING *o = d2i_ASN1_OCTET_STRING(nullptr, &p, (long) sig.size());
                if (o) { exact = false; ASN1_OCTET_STRING_free(o); }
                ERR_clear_error();
            }
            if (raw.size() != (size_t) 2 * ob) exact = false;
            digest = d2; message = m2;
            if (how) digest = model::hash(message, table(k));
        }
        // which key is used: the right one, or another
        EVP_PKEY *use = pk; model::Key other = k;
        if (choose(8, "foreign key") == 7)
        {
            Quiet q;
            model::Key o2; if (choose(2, "same curve")) make_key(&o2, k.curve, k.curve + 1); else pick_curve_key(&o2);
            if (choose(2, "only table")) { BIGNUM *d = BN_dup(k.d); o2.set(k.curve, k.le, pick_sbox(), d); BN_free(d); }
            EVP_PKEY *p2 = model::import_pub(o2);
            if (p2) { use = p2; other = o2; what = "foreign key"; fault(F_SPLICE); if (how) digest = model::hash(message, table(other)); if (model::obytes(other.g()) != ob) exact = false; const unsigned char *p = sig.data(); ASN1_OCTET_STRING *o = d2i_ASN1_OCTET_STRING(nullptr, &p, (long) sig.size()); if (o) ASN1_OCTET_STRING_free(o); ERR_clear_error(); }
        }
        rng.budget = rng.calls + 3000;
        long f0 = rng.failed;
        if (fm == 2) arm_alloc((long) choose(140, "alloc k"), choose(3, "persist") == 2);
        if (fm == 3) { rng.fail_at = rng.calls + (long) choose(4, "fail"); rng.fail_for = 1 + choose(3, "for"); }
        int rc = do_verify(use, digest, message, sig, how);
        bool fired = fm == 2 && disarm_alloc();
        ERR_clear_error();
        ev("verify how=%d %s (%zu bytes, %s) -> %d", how, what, sig.size(), exact ? "proper" : "odd encoding", rc);
        bool acc = acceptable(other, digest, sig);
        if (rc == 1) { SIM_CHECK(acc, "accepted-invalid", "verification accepted an invalid signature (%s, %s, fault %s): %s over %s", what, model::curve_name(other.curve).c_str(), fired ? "allocation" : "none", hex(sig).c_str(), hex(digest).c_str()); probe("accepted a valid signature"); }
        else if (acc && exact && !fired && rng.failed == f0)
            violate("rejected-valid", "verification rejected a valid signature (%s, %s): %s over %s", what, model::curve_name(other.curve).c_str(), hex(sig).c_str(), hex(digest).c_str());
        else { checked(); probe(acc ? "valid one refused under a fault" : "refused an invalid signature"); }
    }
    if (choose(8, "no public part") == 7)
    {
        // parameters only: no signature may verify
        Quiet q;
        EVP_PKEY *p2 = EVP_PKEY_new();
        if (p2 && EVP_PKEY_set_type(p2, k.le ? nid_le : nid_be) == 1 && EVP_PKEY_copy_parameters(p2, pk) == 1)
        {
            Bytes dg = rbytes(32, "digest"), eb = rbytes(60, "nonce"); BIGNUM *e = BN_bin2bn(eb.data(), 60, nullptr), *r = BN_new(), *s = BN_new();
            model::sign(k, dg, e, r, s);
            Bytes sg = model::octets(model::sig_raw(g, r, s, k.le));
            int rc = do_verify(p2, dg, dg, sg, 0);
            SIM_CHECK(rc != 1, "accepted-invalid", "a key without public value accepted a signature");
            probe("key without public value refused");
        }
        ERR_clear_error();
    }
}

// ---------------------------------------------------------------- C15
struct GenModel { int curve = 6; Bytes sbox; bool le = true; };
struct Gen { EVP_PKEY_CTX *c = nullptr; GenModel m; };

Bytes up(const Bytes &b, bool upper) { std::string h = hex(b); if (upper) for (auto &c : h) c = (char) toupper(c); Bytes o(h.begin(), h.end()); o.push_back(0); return o; }

void set_params(Gen &g, bool allocf)
{
    uint32_t n = choose(4, "settings");
    for (uint32_t i = 0; i < n; i++)
    {
        bool fired = false; int rc = 0;
        uint32_t what = choose(8, "setting");
        if (allocf && chance(1, 3, "alloc here")) arm_alloc((long) choose(60, "alloc k"), choose(3, "persist") == 2);
        if (what == 0 || what == 1)
        {
            int c = what == 0 ? (int) choose(10, "curve") : (int) choose((uint32_t) model::curves.size(), "curve");
            if (what == 0)
            {
                rc = EVP_PKEY_CTX_ctrl_str(g.c, "curve", ("uacurve" + std::to_string(c)).c_str());
                fired = disarm_alloc();
                if (rc > 0) g.m.curve = c;
                SIM_CHECK(rc > 0 || fired, "setting-refused", "curve uacurve%d was refused", c);
            }
            else
            {
                rc = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, model::curves[c].g);
                fired = disarm_alloc();
                if (rc > 0) g.m.curve = c;
                SIM_CHECK(rc > 0 || fired, "setting-refused", "a custom curve was refused");
            }
            ev("curve %s -> %d", model::curve_name(c).c_str(), rc);
        }
        else if (what == 2 || what == 3)
        {
            Bytes sb = pick_sbox();
            if (what == 2) rc = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, Guarded(sb, 1).p);
            else { Bytes h = up(sb, choose(2, "upper") != 0); rc = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (char *) h.data()); }
            fired = disarm_alloc();
            if (rc > 0) g.m.sbox = sb;
            SIM_CHECK(rc > 0 || fired, "setting-refused", "a substitution table was refused");
            ev("table (%s) -> %d", what == 2 ? "binary" : "hex", rc);
        }
        else
        {
            Bytes sb = pick_sbox(); Bytes h = up(sb, false);
            switch (choose(11, "bad setting"))
            {
            case 0: rc = EVP_PKEY_CTX_ctrl_str(g.c, "curve", "uacurve10"); break;
            case 1: rc = EVP_PKEY_CTX_ctrl_str(g.c, "curve", "prime256v1"); break;
            case 2: rc = EVP_PKEY_CTX_ctrl_str(g.c, "curve", ""); break;
            case 3: h[126] = 0; rc = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (char *) h.data()); break;
            case 4: h.insert(h.begin(), '0'); h.insert(h.begin(), '1'); rc = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (char *) h.data()); break;
            case 5: h[3] = 'g'; rc = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (char *) h.data()); break;
            case 6: h[0] = '-'; rc = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (char *) h.data()); break;
            case 7: rc = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 63, sb.data()); break;
            case 8: rc = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, nullptr); break;
            case 9: rc = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, nullptr); break;
            default: rc = EVP_PKEY_CTX_ctrl_str(g.c, "courbe", "uacurve1"); break;
            }
            disarm_alloc();
            SIM_CHECK(rc <= 0, "bad-setting", "a malformed setting was accepted");
            probe("malformed setting refused");
        }
        ERR_clear_error();
    }
}

void run_c15()
{
    set_op("generating a key"); set_step_budget(2000000000);
    uint32_t mode = strat(12, "mode");
    bool spread = mode == 11, allocf = mode >= 6 && mode < 11;
    if (spread || allocf) { engine_rand = false; rng.seed = 1 + choose(1u << 30, "rng"); } else pick_source();
    if (spread && choose(3, "source") == 2) { engine_rand = true; clk.on = true; clk.now = 1700000000; seedsrc.seed = choose(0xffffffffu, "seedseed"); rng_forward = ENGINE_get_RAND(sut::e); }
    std::vector<Gen> gs;
    auto fresh = [&]
    {
        Gen g; g.m.le = choose(2, "big endian") == 0;
        Quiet q;
        g.c = EVP_PKEY_CTX_new_id(g.m.le ? nid_le : nid_be, choose(2, "eng") ? sut::e : nullptr);
        SIM_CHECK(g.c && EVP_PKEY_keygen_init(g.c) == 1, "init-failed", "key generation cannot be initialised");
        return g;
    };
    gs.push_back(fresh());
    if (spread)
    {
        bool tiny = choose(2, "tiny") != 0; int c = tiny ? model::first_tiny + (int) choose(3, "curve") : (int) choose(2, "curve");
        SIM_CHECK(EVP_PKEY_CTX_ctrl(gs[0].c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, model::curves[c].g) > 0, "setting-refused", "a custom curve was refused");
        Nonces nn{{}, model::curves[c].order, tiny};
        unsigned long n = tiny ? BN_get_word(nn.n) * (choose(2, "many") ? 200 : 40) : 44; if (n > 6000) n = 6000;
        for (unsigned long i = 0; i < n; i++)
        {
            EVP_PKEY *pk = nullptr; rng.budget = rng.calls + 3000;
            SIM_CHECK(EVP_PKEY_keygen(gs[0].c, &pk) == 1, "keygen-failed", "key generation failed although nothing was wrong");
            Quiet q; Bytes p8 = model::export_priv(pk); EVP_PKEY_free(pk);
            const unsigned char *p = p8.data(); model::Der d, v, a, o; model::der_next(p, p8.data() + p8.size(), &d); p = d.p;
            SIM_CHECK(!p8.empty() && model::der_next(p, d.p + d.len, &v) && model::der_next(p, d.p + d.len, &a) && model::der_next(p, d.p + d.len, &o), "bad-key", "generated key cannot be exported");
            BIGNUM *x = BN_bin2bn(model::rev(Bytes(o.p, o.p + o.len)).data(), (int) o.len, nullptr);
            SIM_CHECK(!BN_is_zero(x) && BN_cmp(x, nn.n) < 0, "key-range", "private value out of range");
            nn.add(x, false);
        }
        std::set<unsigned long> all; if (tiny) for (unsigned long x = 1; x < BN_get_word(nn.n); x++) all.insert(x);
        nn.spread("private value", tiny && n >= 100 * all.size() ? &all : nullptr);
        probe(tiny ? "private value coverage of a small group" : "private value spread");
        fault(F_RNG_ODD);
        return;
    }
    Nonces nn{{}, nullptr, true}; std::set<std::string> ds;
    uint32_t n = 1 + choose(5, "steps");
    for (uint32_t i = 0; i <= n; i++)
    {
        size_t gi = choose((uint32_t) gs.size(), "ctx");
        if (i < n && chance(1, 4, "another ctx") && gs.size() < 3) { gs.push_back(fresh()); continue; }
        if (i < n && chance(1, 4, "dup ctx") && gs.size() < 3)
        {
            bool fired = false;
            // libcrypto copies no context that is set up for generation
            { Quiet q; EVP_PKEY_sign_init(gs[gi].c); }
            if (allocf) arm_alloc((long) choose(40, "alloc k"), choose(3, "persist") == 2);
            EVP_PKEY_CTX *d = EVP_PKEY_CTX_dup(gs[gi].c);
            fired = disarm_alloc();
            SIM_CHECK(d || (allocf && fired), "dup-failed", "copying a generation context failed");
            { Quiet q; SIM_CHECK(EVP_PKEY_keygen_init(gs[gi].c) == 1 && (!d || EVP_PKEY_keygen_init(d) == 1), "init-failed", "key generation cannot be initialised again"); }
            if (d) { Gen g2; g2.c = d; g2.m = gs[gi].m; gs.push_back(g2); ev("context copied"); probe("generation context copied"); }
            ERR_clear_error();
            continue;
        }
        Gen &g = gs[gi];
        set_params(g, allocf && i < n);
        if (i == n) { rng.fail_at = -1; rng.odd = 0; seedsrc.per_call = false; }   // faults stop for the last one
        // generate
        EVP_PKEY *pk = nullptr; bool reuse = choose(3, "reuse object") == 2;
        model::Key old; Bytes oldb;
        if (reuse) { Quiet q; if (choose(2, "empty")) pk = EVP_PKEY_new(); else { make_key(&old, 0, 2); pk = model::import_priv(old); } }
        EVP_PKEY *before = pk;
        SourceState s0 = src(); bool fired = false;
        rng.budget = rng.calls + 3000;
        if (allocf && i < n) arm_alloc((long) (choose(4, "early") ? choose(200, "alloc k") : choose(20, "alloc k")), choose(3, "persist") == 2);
        int rc = EVP_PKEY_keygen(g.c, &pk);
        if (allocf && i < n) fired = disarm_alloc();
        ERR_clear_error();
        ev("keygen on %s -> %d", model::curve_name(g.m.curve).c_str(), rc);
        if (rc != 1)
        {
            SIM_CHECK(fired || src_faulted(s0), "keygen-failed", "key generation failed although nothing was wrong");
            SIM_CHECK(!reuse || pk == before || pk == nullptr, "object-lost", "the caller's key object changed on failure");
            probe(fired ? "generation failed on allocation" : "generation failed on random source");
            if (pk) { Quiet q; EVP_PKEY_free(pk); }
            continue;
        }
        Quiet q;
        Bytes p8 = model::export_priv(pk), pub = model::export_pub(pk);
        model::Key got;
        SIM_CHECK(!p8.empty(), "bad-key", "the generated key cannot be exported");
        SIM_CHECK(model::read_pkcs8(p8, &got), "bad-key", "the generated key is not on any known curve: %s", hex(p8).c_str());
        bool sb_same = (g.m.sbox.empty() ? Bytes(model::default_sbox, model::default_sbox + 64) : g.m.sbox) == (got.sbox.empty() ? Bytes(model::default_sbox, model::default_sbox + 64) : got.sbox);
        SIM_CHECK(got.curve == g.m.curve, "wrong-curve", "key generated on %s instead of %s", model::curve_name(got.curve).c_str(), model::curve_name(g.m.curve).c_str());
        SIM_CHECK(sb_same, "wrong-table", "key generated with another substitution table");
        SIM_CHECK(got.le == g.m.le, "wrong-order", "key generated with the other byte order");
        SIM_CHECK(EVP_PKEY_id(pk) == (g.m.le ? nid_le : nid_be), "wrong-order", "key object has the other type");
        SIM_CHECK(!BN_is_zero(got.d) && BN_cmp(got.d, EC_GROUP_get0_order(got.g())) < 0, "key-range", "private value out of range");
        Bytes want = model::spki(got);
        bool degenerate = false; { Bytes c = model::compress(got.g(), got.q); degenerate = true; for (auto b : c) if (b) degenerate = false; }
        SIM_CHECK(pub == want || degenerate, "wrong-public", "public value does not match the private one (%s)", model::curve_name(got.curve).c_str());
        if (!engine_rand) SIM_CHECK(rng.calls > s0.calls, "no-draw", "a key was generated without drawing randomness");
        if (!model::curves[got.curve].tiny && !src_faulted(s0))
        {
            BIGNUM *lo = BN_new(); BN_rshift(lo, EC_GROUP_get0_order(got.g()), 40);
            SIM_CHECK(BN_cmp(got.d, lo) >= 0, "small-key", "private value lies in the lowest 2^-40 of the range");
            Bytes db = model::bnb(got.d, 64);
            SIM_CHECK(ds.insert(std::string(db.begin(), db.end())).second, "key-repeated", "two generated keys are the same");
        }
        probe(fired ? "generated in spite of a failed allocation" : src_faulted(s0) ? "generated in spite of a poor random source" : reuse ? "generated into an existing object" : "generated");
        // interoperates: a signature by it verifies under the model
        if (choose(3, "use") == 2)
        {
            Bytes dg = rbytes(32, "digest"); unsigned char o[300]; size_t l = sizeof o;
            EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk, nullptr);
            bool signedit = false;
            for (int t = 0; t < 60 && c && EVP_PKEY_sign_init(c) == 1 && !signedit && (t == 0 || model::curves[got.curve].tiny); t++) signedit = (l = sizeof o, EVP_PKEY_sign(c, o, &l, dg.data(), dg.size()) == 1);
            SIM_CHECK(signedit, "sign-failed", "the generated key cannot sign");
            BN_free(check_sig(got, dg, Bytes(o, o + l)));
            EVP_PKEY_CTX_free(c);
        }
        EVP_PKEY_free(pk);
    }
    Quiet q;
    for (auto &g : gs) EVP_PKEY_CTX_free(g.c);
}
}
extern const Workload wl_c05 = {"C05", setup, run_c05, 4500, 200000};
extern const Workload wl_c06 = {"C06", setup, run_c06, 8000, 300000};
extern const Workload wl_c15 = {"C15", setup, run_c15, 6000, 200000};
