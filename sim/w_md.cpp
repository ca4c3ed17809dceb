// C03, C04: digest and cipher contexts driven by arbitrary histories.
#include "sim.h"
#include "model.h"
#include "common.h"
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>
#include <openssl/pkcs12.h>
#include <memory>
using namespace sim;

namespace {
const int CTRL_SBOX = 0x1000 + 1;
const EVP_MD *md; const EVP_CIPHER *ciph;

Bytes msg(size_t max)
{
    size_t n = rsize(max, "len");
    switch (choose(6, "fill")) { case 1: return Bytes(n, 0); case 2: return Bytes(n, 0xff); case 3: { Bytes b = rbytes(n, "data"); for (auto &c : b) c |= 0x80; return b; } default: return rbytes(n, "data"); }
}

// ---------------------------------------------------------------- C03
struct MdCtx {
    EVP_MD_CTX *c = nullptr; Bytes m; Bytes sbox; bool live = false, fresh = false;
};

bool init_any(EVP_MD_CTX *c, uint32_t how, bool had)
{
    switch (how)
    {
    case 0: return EVP_DigestInit_ex(c, md, sut::e) == 1;
    case 1: return EVP_DigestInit_ex(c, md, nullptr) == 1;
    case 2: return EVP_DigestInit(c, md) == 1;
    default: return had ? EVP_DigestInit_ex(c, nullptr, nullptr) == 1 : EVP_DigestInit_ex(c, md, sut::e) == 1;
    }
}

void md_history(uint32_t nops)
{
    std::vector<MdCtx> cs(1 + choose(4, "contexts"));
    { Quiet q; for (auto &c : cs) c.c = EVP_MD_CTX_new(); }
    std::vector<bool> had(cs.size(), false);
    auto start = [&](size_t i)
    {
        MdCtx &c = cs[i];
        uint32_t how = choose(4, "init");
        SIM_CHECK(init_any(c.c, how, had[i]), "init-failed", "digest initialisation failed");
        had[i] = true; c.live = c.fresh = true; c.m.clear(); c.sbox.assign(model::default_sbox, model::default_sbox + 64);
        ev("ctx%zu init", i);
        if (chance(1, 4, "custom table"))
        {
            Bytes sb = pick_sbox();
            Guarded g(sb, (int) choose(2, "guard"));
            SIM_CHECK(EVP_MD_CTX_ctrl(c.c, CTRL_SBOX, 64, g.p) == 1, "table-rejected", "a substitution table was rejected");
            memset(g.p, 0xdd, 64);
            c.sbox = sb;
            ev("ctx%zu table", i);
        }
    };
    for (uint32_t k = 0; k < nops; k++)
    {
        size_t i = choose((uint32_t) cs.size(), "ctx");
        MdCtx &c = cs[i];
        if (!c.live) { start(i); continue; }
        switch (choose(12, "op"))
        {
        case 0: case 1: case 2: case 3: case 4: case 5:
        {
            Bytes b = msg(choose(8, "large") == 7 ? 3000 : 140);
            Guarded g(b, (int) choose(2, "guard"));
            int rc = EVP_DigestUpdate(c.c, g.p, g.n);
            memset(g.p, 0xdd, g.n);
            SIM_CHECK(rc == 1, "update-failed", "digest update failed");
            c.m.insert(c.m.end(), b.begin(), b.end());
            ev("ctx%zu update %zu", i, b.size());
            break;
        }
        case 6: case 7:
        {
            size_t j = choose((uint32_t) cs.size(), "to");
            if (j == i) break;
            int rc = choose(3, "copy") == 2 ? EVP_MD_CTX_copy(cs[j].c, c.c) : EVP_MD_CTX_copy_ex(cs[j].c, c.c);
            SIM_CHECK(rc == 1, "copy-failed", "copying a digest context failed");
            cs[j].m = c.m; cs[j].sbox = c.sbox; cs[j].live = true; had[j] = true;
            ev("ctx%zu copied to ctx%zu", i, j);
            if (chance(1, 4, "drop source")) { EVP_MD_CTX_free(c.c); { Quiet q; c.c = EVP_MD_CTX_new(); } c.live = false; had[i] = false; probe("source freed after copy"); }
            break;
        }
        case 8: case 9:
        {
            Guarded out(Bytes(32, 0xEE), (int) choose(2, "guard"));
            unsigned n = 0;
            bool ex = choose(2, "final_ex") == 0;
            int rc = ex ? EVP_DigestFinal_ex(c.c, out.p, &n) : EVP_DigestFinal(c.c, out.p, &n);
            SIM_CHECK(rc == 1 && n == 32, "final-failed", "digest final failed");
            Bytes want; { Quiet q; want = model::hash(c.m, c.sbox.data()); }
            SIM_CHECK(memcmp(want.data(), out.p, 32) == 0, "wrong-digest", "digest of %zu bytes is %s, should be %s", c.m.size(), hex(out.p, 32).c_str(), hex(want).c_str());
            ev("ctx%zu final over %zu", i, c.m.size());
            c.live = false;
            if (!ex) had[i] = false;
            break;
        }
        case 10:   // a rejected control must not disturb anything
        {
            Bytes sb = pick_sbox();
            int rc = choose(2, "bad") ? EVP_MD_CTX_ctrl(c.c, CTRL_SBOX, 63, sb.data()) : EVP_MD_CTX_ctrl(c.c, CTRL_SBOX, 64, nullptr);
            SIM_CHECK(rc != 1, "bad-control", "a malformed substitution table was accepted");
            break;
        }
        default:
            if (choose(2, "abandon")) { EVP_MD_CTX_reset(c.c); had[i] = false; c.live = false; }
            else start(i);
            ev("ctx%zu abandoned", i);
        }
    }
    for (size_t i = 0; i < cs.size(); i++)
    {
        if (cs[i].live)
        {
            unsigned char out[64]; unsigned n = 0;
            SIM_CHECK(EVP_DigestFinal_ex(cs[i].c, out, &n) == 1 && n == 32, "final-failed", "digest final failed");
            Bytes want; { Quiet q; want = model::hash(cs[i].m, cs[i].sbox.data()); }
            SIM_CHECK(memcmp(want.data(), out, 32) == 0, "wrong-digest", "digest of %zu bytes is %s, should be %s", cs[i].m.size(), hex(out, 32).c_str(), hex(want).c_str());
        }
        EVP_MD_CTX_free(cs[i].c);
    }
    probe("context history");
}

void md_stream()
{
    Stream st;
    Bytes m = msg(1500);
    bool wr = choose(2, "write side") != 0;
    st.data = m; st.style = (int) choose(3, "style"); st.wstyle = (int) choose(3, "wstyle");
    if (!wr && chance(1, 3, "would block")) { st.retry_at = (long) choose((uint32_t) m.size() + 1, "at"); st.retry_once = true; }
    BIO *in, *f;
    { Quiet q; in = new_bio(&st); f = BIO_new(BIO_f_md()); }
    SIM_CHECK(BIO_set_md(f, (EVP_MD *) md) == 1, "init-failed", "digest filter rejected the digest");
    BIO_push(f, in);
    Bytes seen; unsigned char buf[256]; long guard = 0;
    if (!wr)
        while (guard++ < 20000)
        {
            int n = BIO_read(f, buf, 1 + (int) choose(200, "ask"));
            if (n > 0) { seen.insert(seen.end(), buf, buf + n); continue; }
            if (BIO_should_retry(f)) continue;
            break;
        }
    else
    {
        size_t off = 0;
        while (off < m.size() && guard++ < 20000)
        {
            int ask = 1 + (int) choose(200, "put"); if ((size_t) ask > m.size() - off) ask = (int) (m.size() - off);
            Guarded g(&m[off], ask, 0);
            int n = BIO_write(f, g.p, ask);
            memset(g.p, 0xdd, ask);
            if (n > 0) { off += n; continue; }
            if (!BIO_should_retry(f)) break;
        }
        seen.assign(m.begin(), m.begin() + off);
        SIM_CHECK(off == m.size(), "stream-failed", "writing through the digest filter stopped early");
    }
    SIM_CHECK(seen == m, "stream-bytes", "the digest filter changed the bytes");
    int n = BIO_gets(f, (char *) buf, sizeof buf);
    Bytes want; { Quiet q; want = model::hash(m); }
    SIM_CHECK(n == 32 && !memcmp(buf, want.data(), 32), "wrong-digest", "digest of a %zu byte stream is wrong", m.size());
    { Quiet q; BIO_free(f); BIO_free(in); }
    probe(wr ? "written through a digest filter" : "read through a digest filter");
}

void md_hmac()
{
    Bytes key = msg(100), m;
    if (key.empty()) key = {1};
    HMAC_CTX *h, *h2; { Quiet q; h = HMAC_CTX_new(); h2 = HMAC_CTX_new(); }
    { Guarded g(key, (int) choose(2, "guard"));
      SIM_CHECK(HMAC_Init_ex(h, g.p, (int) key.size(), md, choose(2, "eng") ? nullptr : sut::e) == 1, "init-failed", "HMAC initialisation failed"); memset(g.p, 0xdd, g.n); }
    uint32_t rounds = 1 + choose(3, "rounds");
    for (uint32_t r = 0; r < rounds; r++)
    {
        m.clear();
        uint32_t n = choose(6, "updates");
        HMAC_CTX *cur = h;
        for (uint32_t i = 0; i < n; i++)
        {
            Bytes b = msg(140);
            Guarded g(b, (int) choose(2, "guard"));
            SIM_CHECK(HMAC_Update(cur, g.p, g.n) == 1, "update-failed", "HMAC update failed");
            memset(g.p, 0xdd, g.n);
            m.insert(m.end(), b.begin(), b.end());
            if (cur == h && chance(1, 5, "copy")) { SIM_CHECK(HMAC_CTX_copy(h2, h) == 1, "copy-failed", "HMAC copy failed"); cur = h2; probe("HMAC copied mid-message"); }
        }
        unsigned char out[64]; unsigned l = 0;
        SIM_CHECK(HMAC_Final(cur, out, &l) == 1 && l == 32, "final-failed", "HMAC final failed");
        Bytes want; { Quiet q; want = model::hmac(key, m); }
        SIM_CHECK(!memcmp(out, want.data(), 32), "wrong-hmac", "HMAC over %zu bytes is wrong", m.size());
        if (choose(2, "rekey")) { key = msg(100); if (key.empty()) key = {2}; SIM_CHECK(HMAC_Init_ex(h, key.data(), (int) key.size(), nullptr, nullptr) == 1, "init-failed", "HMAC re-key failed"); }
        else SIM_CHECK(HMAC_Init_ex(h, nullptr, 0, nullptr, nullptr) == 1, "init-failed", "HMAC re-initialisation failed");
    }
    HMAC_CTX_free(h); HMAC_CTX_free(h2);
    probe("HMAC");
}

void md_signhmac()   // HMAC through the EVP_PKEY interface
{
    Bytes key = msg(90), m;
    if (key.empty()) key = {1};
    EVP_PKEY *pk; EVP_MD_CTX *c, *c2; { Quiet q; pk = EVP_PKEY_new_mac_key(EVP_PKEY_HMAC, nullptr, key.data(), (int) key.size()); c = EVP_MD_CTX_new(); c2 = EVP_MD_CTX_new(); }
    SIM_CHECK(pk != nullptr, "harness", "no HMAC key");
    bool eng = choose(2, "eng") != 0;
    SIM_CHECK(EVP_DigestSignInit(c, nullptr, md, eng ? nullptr : nullptr, pk) == 1, "init-failed", "HMAC by EVP_DigestSignInit failed");
    uint32_t n = choose(5, "updates");
    for (uint32_t i = 0; i < n; i++)
    {
        Bytes b = msg(140);
        SIM_CHECK(EVP_DigestSignUpdate(c, b.data(), b.size()) == 1, "update-failed", "HMAC update failed");
        m.insert(m.end(), b.begin(), b.end());
        if (chance(1, 4, "copy")) { SIM_CHECK(EVP_MD_CTX_copy_ex(c2, c) == 1, "copy-failed", "copy failed"); std::swap(c, c2); }
    }
    unsigned char out[64]; size_t l = sizeof out;
    SIM_CHECK(EVP_DigestSignFinal(c, out, &l) == 1 && l == 32, "final-failed", "HMAC final failed");
    Bytes want; { Quiet q; want = model::hmac(key, m); }
    SIM_CHECK(!memcmp(out, want.data(), 32), "wrong-hmac", "HMAC (EVP_DigestSign) over %zu bytes is wrong", m.size());
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(c2); EVP_PKEY_free(pk);
    probe("HMAC by EVP_DigestSign");
}

void md_pbkdf2()
{
    Bytes pass = msg(50), salt = msg(40);
    int iter = 1 + (int) choose(4, "iterations"); size_t len = 1 + choose(70, "length");
    Guarded p(pass, 0), s(salt, 0), out(Bytes(len, 0xEE), 1);
    SIM_CHECK(PKCS5_PBKDF2_HMAC((const char *) p.p, (int) p.n, s.p, (int) s.n, iter, md, (int) len, out.p) == 1, "pbkdf2-failed", "PBKDF2 failed");
    Bytes want; { Quiet q; want = model::pbkdf2(pass, salt, iter, len); }
    SIM_CHECK(!memcmp(out.p, want.data(), len), "wrong-pbkdf2", "PBKDF2 result is wrong");
    probe("PBKDF2");
}

void md_oneshot()
{
    Bytes m = msg(600); Guarded g(m, 1); unsigned char out[64]; unsigned n = 0;
    bool ok = EVP_Digest(g.p, g.n, out, &n, md, choose(2, "eng") ? nullptr : sut::e) == 1;
    SIM_CHECK(ok && n == 32, "final-failed", "one-shot digest failed");
    Bytes want; { Quiet q; want = model::hash(m); }
    SIM_CHECK(!memcmp(out, want.data(), 32), "wrong-digest", "one-shot digest of %zu bytes is wrong", m.size());
}

void md_any()
{
    switch (choose(9, "kind"))
    {
    case 0: case 1: case 2: md_history(4 + choose(24, "nops")); break;
    case 3: case 4: md_stream(); break;
    case 5: md_hmac(); break;
    case 6: md_pbkdf2(); break;
    case 7: md_signhmac(); break;
    default: md_oneshot();
    }
}

void setup()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    md = ENGINE_get_digest(sut::e, OBJ_txt2nid("1.2.804.2.1.1.1.1.2.1"));
    ciph = ENGINE_get_cipher(sut::e, OBJ_txt2nid("1.2.804.2.1.1.1.1.1.1.3"));
    if (!md || !ciph) { fprintf(stderr, "engine lacks digest or cipher\n"); _exit(77); }
}

void run_c03()
{
    pick_rng_faults();
    set_step_budget(400000000);
    uint32_t nt = strat(3, "threads");
    set_op("hashing");
    if (nt == 0) md_any();
    else
    {
        std::vector<std::function<void()>> f;
        for (uint32_t t = 0; t <= nt; t++) f.push_back([] { md_any(); });
        run_threads(f, pick_style());
    }
}

// ---------------------------------------------------------------- C04
struct CCtx {
    EVP_CIPHER_CTX *c = nullptr; bool started = false, key = false, iv = false; int enc = 1;
    Bytes k, v, sbox, in;
};

struct CSnap { Bytes k, v, sbox, in, out; bool enc; };

Bytes model_tail(const CCtx &c, size_t n)
{
    Quiet q;
    Bytes o = model::cfb(c.k.data(), c.sbox.data(), c.v.data(), c.in, c.enc);
    return Bytes(o.end() - n, o.end());
}

ASN1_TYPE *mk_type(const Bytes &der) { Quiet q; const unsigned char *p = der.data(); return d2i_ASN1_TYPE(nullptr, &p, (long) der.size()); }
Bytes type_der(ASN1_TYPE *t) { Quiet q; unsigned char *o = nullptr; int n = i2d_ASN1_TYPE(t, &o); Bytes b; if (n > 0) b.assign(o, o + n); OPENSSL_free(o); return b; }

void feed(CCtx &c, size_t i, const Bytes &b, int how)
{
    Guarded in(b, (int) choose(2, "guard"));
    Guarded out(Bytes(b.size(), 0xEE), (int) choose(2, "guard"));
    unsigned char *o = how == 1 ? in.p : out.p;
    int n = -1, rc;
    if (how == 2) { rc = EVP_Cipher(c.c, o, in.p, (unsigned) in.n); rc = rc == (int) b.size() || rc == 1; n = (int) b.size(); }
    else rc = c.enc ? EVP_EncryptUpdate(c.c, o, &n, in.p, (int) in.n) : EVP_DecryptUpdate(c.c, o, &n, in.p, (int) in.n);
    SIM_CHECK(rc == 1 && n == (int) b.size(), "update-failed", "ctx%zu: %s of %zu bytes failed (rc %d, %d bytes)", i, c.enc ? "encryption" : "decryption", b.size(), rc, n);
    c.in.insert(c.in.end(), b.begin(), b.end());
    Bytes want = model_tail(c, b.size());
    SIM_CHECK(!memcmp(want.data(), o, b.size()), "wrong-output", "ctx%zu: %s of %zu bytes at offset %zu%s is wrong: %s instead of %s", i, c.enc ? "encryption" : "decryption", b.size(), c.in.size() - b.size(), how == 1 ? " in place" : "",
              hex(o, b.size()).c_str(), hex(want).c_str());
    if (how != 1) SIM_CHECK(!memcmp(in.p, b.data(), b.size()), "input-changed", "the input buffer was modified");
    ev("ctx%zu %s %zu%s", i, c.enc ? "enc" : "dec", b.size(), how == 1 ? " in place" : "");
}

void cipher_history(uint32_t nops)
{
    std::vector<CCtx> cs(1 + choose(3, "contexts"));
    { Quiet q; for (auto &c : cs) c.c = EVP_CIPHER_CTX_new(); }
    auto restart = [](CCtx &c) { c.in.clear(); };
    auto init = [&](size_t i, const EVP_CIPHER *cp, bool k, bool v, int enc)
    {
        CCtx &c = cs[i];
        Bytes kb = pick_key(), vb = msg(8); vb.resize(8);
        Guarded kg(kb, (int) choose(2, "guard")), vg(vb, (int) choose(2, "guard"));
        int rc = EVP_CipherInit_ex(c.c, cp, cp ? (choose(2, "eng") ? nullptr : sut::e) : nullptr, k ? kg.p : nullptr, v ? vg.p : nullptr, enc);
        SIM_CHECK(rc == 1, "init-failed", "cipher initialisation failed");
        memset(kg.p, 0xdd, 32); memset(vg.p, 0xdd, 8);
        if (k) { c.k = kb; c.key = true; }
        if (v) { c.v = vb; c.iv = true; }
        if (enc >= 0) c.enc = enc;
        if (!c.started) { c.sbox.assign(model::default_sbox, model::default_sbox + 64); c.started = true; }
        restart(c);
        ev("ctx%zu init%s%s%s enc=%d", i, cp ? " cipher" : "", k ? " key" : "", v ? " iv" : "", enc);
    };
    for (uint32_t k = 0; k < nops; k++)
    {
        size_t i = choose((uint32_t) cs.size(), "ctx");
        CCtx &c = cs[i];
        if (!c.started)
        {
            uint32_t m = choose(4, "init parts");
            init(i, ciph, m == 0 || m == 1, m == 0 || m == 2, (int) choose(2, "enc"));
            continue;
        }
        if (!c.key || !c.iv)
        {
            // complete the set-up: key, IV, table, parameters in any order
            uint32_t m = choose(6, "part");
            if (m == 0) { init(i, nullptr, !c.key, !c.iv, -1); continue; }
            if (m == 1 && !c.key) { init(i, nullptr, true, false, -1); continue; }
            if (m == 2 && !c.iv) { init(i, nullptr, false, true, -1); continue; }
        }
        else if (choose(3, "feed"))
        {
            Bytes b = msg(choose(10, "large") == 9 ? 700 : 60);
            int how = (int) choose(5, "how"); how = how == 3 ? 1 : how == 4 ? 2 : 0;
            if (b.empty())
            {
                unsigned char o[8]; int n = 0;
                if (how == 2) EVP_Cipher(c.c, o, b.data(), 0); else EVP_CipherUpdate(c.c, o, &n, o, 0);
                SIM_CHECK(n <= 0, "update-failed", "output produced for no input");
                ev("ctx%zu empty update", i); probe("empty update");
                ERR_clear_error();
            }
            else feed(c, i, b, how);
            continue;
        }
        switch (choose(13, "op"))
        {
        case 0: init(i, nullptr, true, true, choose(2, "dir") ? (int) choose(2, "enc") : -1); break;
        case 1: if (c.iv) { init(i, nullptr, true, false, -1); probe("re-keyed only"); } break;
        case 2: if (c.key) { init(i, nullptr, false, true, -1); probe("new IV only"); } break;
        case 3: // table
        {
            Bytes sb = pick_sbox(); Guarded g(sb, (int) choose(2, "guard"));
            SIM_CHECK(EVP_CIPHER_CTX_ctrl(c.c, CTRL_SBOX, 64, g.p) == 1, "table-rejected", "a substitution table was rejected");
            memset(g.p, 0xdd, 64);
            c.sbox = sb; restart(c); ev("ctx%zu table", i); probe("custom table");
            break;
        }
        case 4: // parameters imported
        {
            Bytes sb = pick_sbox(), v = msg(8); v.resize(8);
            if (choose(3, "dke") == 0) sb.assign(model::default_sbox, model::default_sbox + 64);
            ASN1_TYPE *t = mk_type(model::seq({model::octets(v), model::octets(sb)}));
            int rc = EVP_CIPHER_asn1_to_param(c.c, t);
            SIM_CHECK(rc > 0, "params-rejected", "well-formed cipher parameters were rejected");
            { Quiet q; ASN1_TYPE_free(t); }
            c.v = v; c.iv = true; c.sbox = sb; restart(c); ev("ctx%zu parameters", i); probe("parameters imported");
            break;
        }
        case 5: // malformed parameters or controls are refused and change nothing
        {
            Bytes sb = pick_sbox(), v = msg(8); v.resize(8); Bytes der;
            switch (choose(12, "malformed"))
            {
            case 0: v.resize(7); der = model::seq({model::octets(v), model::octets(sb)}); break;
            case 1: sb.resize(63); v.push_back(1); der = model::seq({model::octets(v), model::octets(sb)}); break;
            case 2: der = model::octets(Bytes(76, 4)); break;
            case 3: der = model::seq({model::octets(sb), model::octets(v)}); break;
            case 4: der = model::seq({model::octets(v)}); break;
            case 5: der = model::seq({model::tlv(3, v), model::octets(sb)}); break;
            // a good IV with a bad table, same total length
            case 6: der = model::seq({model::octets(v), model::tlv(3 + choose(0x21, "tag"), sb)}); if (der[12] == 4) der[12] = 5; break;
            case 7: sb.resize(62); der = model::seq({model::octets(v), model::octets(sb), model::null()}); break;
            case 8: sb.resize(65); der = model::seq({model::octets(v), model::octets(sb)}); break;
            case 9: v.resize(9, 1); sb.resize(63); der = model::seq({model::octets(v), model::octets(sb)}); break;
            case 10: der = model::seq({model::octets(v), model::octets(sb), model::null()}); break;
            default: der = model::null(); break;
            }
            ASN1_TYPE *t = mk_type(der);
            if (t) { int rc = EVP_CIPHER_asn1_to_param(c.c, t); SIM_CHECK(rc <= 0, "params-accepted", "malformed cipher parameters were accepted"); Quiet q; ASN1_TYPE_free(t); }
            sb.resize(64);
            int rc = choose(2, "bad") ? EVP_CIPHER_CTX_ctrl(c.c, CTRL_SBOX, 63, sb.data()) : EVP_CIPHER_CTX_ctrl(c.c, CTRL_SBOX, 64, nullptr);
            SIM_CHECK(rc != 1, "bad-control", "a malformed table was accepted");
            ERR_clear_error(); ev("ctx%zu refused calls", i); probe("refused call mid-stream");
            break;
        }
        case 6: case 7: // copy
        {
            size_t j = choose((uint32_t) cs.size(), "to");
            if (j == i) break;
            SIM_CHECK(EVP_CIPHER_CTX_copy(cs[j].c, c.c) == 1, "copy-failed", "copying a cipher context failed");
            EVP_CIPHER_CTX *keep = cs[j].c; cs[j] = c; cs[j].c = keep;
            ev("ctx%zu copied to ctx%zu", i, j); probe("copied mid-stream");
            if (chance(1, 4, "drop source")) { EVP_CIPHER_CTX_free(c.c); c = CCtx(); Quiet q; c.c = EVP_CIPHER_CTX_new(); }
            break;
        }
        case 8: case 9: // exported parameters decrypt what was encrypted
        {
            if (!c.key || !c.iv) break;
            ASN1_TYPE *t; { Quiet q; t = ASN1_TYPE_new(); }
            int rc = EVP_CIPHER_param_to_asn1(c.c, t);
            SIM_CHECK(rc > 0, "export-failed", "exporting cipher parameters failed");
            Bytes d = type_der(t), want = model::seq({model::octets(c.v), model::octets(c.sbox)});
            SIM_CHECK(d == want, "wrong-params", "exported parameters are %s instead of %s", hex(d).c_str(), hex(want).c_str());
            if (c.enc && !c.in.empty())
            {
                Bytes ct; { Quiet q; ct = model::cfb(c.k.data(), c.sbox.data(), c.v.data(), c.in, true); }
                CCtx r; { Quiet q; r.c = EVP_CIPHER_CTX_new(); }
                bool first = choose(2, "order") != 0;
                SIM_CHECK(EVP_DecryptInit_ex(r.c, ciph, sut::e, first ? c.k.data() : nullptr, nullptr) == 1, "init-failed", "decrypt init failed");
                SIM_CHECK(EVP_CIPHER_asn1_to_param(r.c, t) > 0, "params-rejected", "exported parameters rejected");
                if (!first) SIM_CHECK(EVP_DecryptInit_ex(r.c, nullptr, nullptr, c.k.data(), nullptr) == 1, "init-failed", "decrypt init failed");
                Bytes pt(ct.size()); int n = 0; size_t cut = choose((uint32_t) ct.size() + 1, "cut");
                if (cut) SIM_CHECK(EVP_DecryptUpdate(r.c, pt.data(), &n, ct.data(), (int) cut) == 1, "update-failed", "decryption failed");
                if (cut < ct.size()) SIM_CHECK(EVP_DecryptUpdate(r.c, pt.data() + cut, &n, ct.data() + cut, (int) (ct.size() - cut)) == 1, "update-failed", "decryption failed");
                SIM_CHECK(pt == c.in, "wrong-output", "decryption under exported parameters does not return the plaintext");
                EVP_CIPHER_CTX_free(r.c);
                probe("decrypted under exported parameters");
            }
            { Quiet q; ASN1_TYPE_free(t); }
            break;
        }
        case 10: // finish
        {
            unsigned char o[16]; int n = 0;
            if (c.key && c.iv) { SIM_CHECK(EVP_CipherFinal_ex(c.c, o, &n) >= 0 && n == 0, "final-output", "final produced %d bytes", n); ERR_clear_error(); if (choose(2, "after")) init(i, nullptr, choose(2, "k") != 0, true, -1); }
            break;
        }
        case 11: // reset and reuse
            EVP_CIPHER_CTX_reset(c.c);
            { EVP_CIPHER_CTX *keep = c.c; c = CCtx(); c.c = keep; }
            ev("ctx%zu reset", i);
            break;
        default: { int x = 0; EVP_CIPHER_CTX_ctrl(c.c, EVP_CTRL_PBE_PRF_NID, 0, &x); }
        }
    }
    for (auto &c : cs) EVP_CIPHER_CTX_free(c.c);
    probe("context history");
}

void cipher_pbes2()
{
    // password-based encryption by the library under test, decrypted by the model and back
    Bytes pass = msg(20), salt = rbytes(8 + choose(24, "salt"), "salt"), iv = rbytes(8, "iv"), dke(model::default_sbox, model::default_sbox + 64);
    for (auto &b : pass) if (!b) b = 1;
    if (pass.empty()) pass = {'p'};
    if (choose(2, "dke")) dke = pick_sbox();
    int iter = 1 + (int) choose(3, "iter");
    model::Key k; make_key(&k, 0, 1);
    Bytes plain, enc;
    { Quiet q; plain = model::pkcs8(k); enc = model::pbes2(plain, pass, salt, iter, iv, dke, choose(2, "keylen") != 0); }
    X509_SIG *s; { Quiet q; const unsigned char *p = enc.data(); s = d2i_X509_SIG(nullptr, &p, (long) enc.size()); }
    SIM_CHECK(s != nullptr, "harness", "model produced a bad PBES2");
    PKCS8_PRIV_KEY_INFO *p8 = PKCS8_decrypt(s, (const char *) pass.data(), (int) pass.size());
    SIM_CHECK(p8 != nullptr, "pbes2-failed", "decryption of a PBES2 blob (table %s) failed", memcmp(dke.data(), model::default_sbox, 64) ? "custom" : "default");
    Bytes got; { Quiet q; unsigned char *o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &o); if (n > 0) got.assign(o, o + n); OPENSSL_free(o); }
    SIM_CHECK(got == plain, "wrong-output", "PBES2 decryption gave other bytes");
    PKCS8_PRIV_KEY_INFO_free(p8);
    { Quiet q; X509_SIG_free(s); }
    probe(memcmp(dke.data(), model::default_sbox, 64) ? "PBES2 with a custom table" : "PBES2");
}

void cipher_stream()
{
    // BIO cipher filter over a short-reading stream
    Bytes m = msg(1200), key = pick_key(), iv = rbytes(8, "iv");
    bool enc = choose(2, "enc") != 0, wr = choose(2, "write side") != 0;
    Stream st; st.data = m; st.style = (int) choose(3, "style"); st.wstyle = (int) choose(3, "wstyle");
    if (!wr && chance(1, 3, "would block")) { st.retry_at = (long) choose((uint32_t) m.size() + 1, "at"); st.retry_once = true; }
    BIO *io, *f; { Quiet q; io = new_bio(&st); f = BIO_new(BIO_f_cipher()); }
    SIM_CHECK(BIO_set_cipher(f, ciph, key.data(), iv.data(), enc) == 1, "init-failed", "cipher filter rejected the cipher");
    BIO_push(f, io);
    Bytes got; unsigned char buf[256]; long guard = 0;
    if (!wr)
        while (guard++ < 20000)
        {
            int n = BIO_read(f, buf, 1 + (int) choose(200, "ask"));
            if (n > 0) got.insert(got.end(), buf, buf + n);
            else if (!BIO_should_retry(f)) break;
        }
    else
    {
        size_t off = 0;
        while (off < m.size() && guard++ < 20000)
        {
            int ask = 1 + (int) choose(200, "put"); if ((size_t) ask > m.size() - off) ask = (int) (m.size() - off);
            int n = BIO_write(f, &m[off], ask);
            if (n > 0) off += n; else if (!BIO_should_retry(f)) break;
        }
        for (int i = 0; i < 20000 && BIO_flush(f) <= 0; i++) if (!BIO_should_retry(f)) break;
        got = st.out;
    }
    Bytes want; { Quiet q; want = model::cfb(key.data(), model::default_sbox, iv.data(), m, enc); }
    SIM_CHECK(got == want, "wrong-output", "cipher filter over a stream of %zu bytes gave %zu bytes%s", m.size(), got.size(), got.size() == want.size() ? ", wrong ones" : "");
    { Quiet q; BIO_free(f); BIO_free(io); }
    probe(wr ? "written through a cipher filter" : "read through a cipher filter");
}

void cipher_any()
{
    switch (choose(8, "kind")) { case 5: cipher_pbes2(); break; case 6: case 7: cipher_stream(); break; default: cipher_history(6 + choose(30, "nops")); }
}

void run_c04()
{
    pick_rng_faults();
    set_step_budget(400000000);
    uint32_t nt = strat(3, "threads");
    set_op("encrypting");
    if (nt == 0) cipher_any();
    else
    {
        std::vector<std::function<void()>> f;
        for (uint32_t t = 0; t <= nt; t++) f.push_back([] { cipher_any(); });
        run_threads(f, pick_style());
    }
}
}

// ---------------------------------------------------------------- long data, against the library as it is shipped (no instrumentation)
namespace {
size_t long_size()
{
    static const size_t around[] = {1u << 13, 1u << 16, 1u << 16, 1u << 17, 1u << 20, 1u << 21};
    size_t n = around[choose(6, "size")]; uint32_t d = choose(70, "around"); return n - 33 + d;
}
size_t long_piece(size_t left)
{
    size_t p;
    switch (choose(5, "piece")) { case 0: p = 1 + choose(40, "n"); break; case 1: p = 1 + choose(5000, "n"); break; case 2: p = 65536 * (1 + choose(4, "n")); break; case 3: p = left; break; default: p = 1 + choose((uint32_t) left, "n"); }
    return p > left ? left : p;
}

void run_c03l()
{
    rng.seed = 1 + choose(1u << 30, "rng");
    set_op("hashing a long message");
    bool pair = choose(2, "two contexts") != 0; EVP_MD_CTX *c[2] = {EVP_MD_CTX_new(), EVP_MD_CTX_new()}; Bytes m[2], sb[2]; size_t at[2] = {0, 0};
    for (int i = 0; i <= pair; i++)
    {
        Bytes unit = rbytes(257, "data"); size_t n = long_size(); while (m[i].size() < n) m[i].insert(m[i].end(), unit.begin(), unit.begin() + std::min(unit.size(), n - m[i].size()));
        SIM_CHECK(EVP_DigestInit_ex(c[i], md, nullptr) == 1, "init-failed", "digest initialisation failed");
        if (choose(2, "table")) { sb[i] = pick_sbox(); SIM_CHECK(EVP_MD_CTX_ctrl(c[i], CTRL_SBOX, 64, sb[i].data()) == 1, "table-rejected", "a substitution table was rejected"); }
    }
    auto fin = [&](EVP_MD_CTX *x, int i) {
        unsigned char o[64]; unsigned n = 0; SIM_CHECK(EVP_DigestFinal_ex(x, o, &n) == 1, "final-failed", "a digest cannot be finished");
        Bytes part(m[i].begin(), m[i].begin() + (long) at[i]), want = model::hash(part, sb[i].empty() ? model::default_sbox : sb[i].data());
        SIM_CHECK(n == 32 && Bytes(o, o + 32) == want, "wrong-digest", "the digest of %zu bytes is %s instead of %s", at[i], hex(o, n).c_str(), hex(want).c_str());
        ev("digest of %zu bytes", at[i]);
    };
    for (int guard = 0; guard < 4000 && (at[0] < m[0].size() || at[1] < m[1].size()); guard++)
    {
        int i = at[0] >= m[0].size() ? 1 : at[1] >= m[1].size() ? 0 : (int) choose(2, "context");
        size_t p = guard > 3900 ? m[i].size() - at[i] : long_piece(m[i].size() - at[i]);
        SIM_CHECK(EVP_DigestUpdate(c[i], &m[i][at[i]], p) == 1, "update-failed", "update failed"); at[i] += p;
        if (guard < 3 && choose(4, "copy") == 3) { EVP_MD_CTX *x = EVP_MD_CTX_new(); SIM_CHECK(EVP_MD_CTX_copy_ex(x, c[i]) == 1, "copy-failed", "copy failed"); fin(x, i); EVP_MD_CTX_free(x); }
        fault(F_SHORT_READ);
    }
    for (int i = 0; i <= pair; i++) fin(c[i], i);
    EVP_MD_CTX_free(c[0]); EVP_MD_CTX_free(c[1]);
    probe("long message");
}

// digests of the repeated block below, computed once with the model
struct { uint64_t n; const char *d; } const huge[] = {
    {1000ull, "1a7cf4f56ffad6d904ce368c00b97704855e870f86c00bd303b4a16ee4503c12"},
    {16777221ull, "71084f4bc62b4e7bb11a0659124d119fb93b95ac5bb984c0e8a314d0ea27bfd0"},
    {536870911ull, "040fa60b8bf80778e60294818c6ca8c1fd7b13f85a19420300181d9ed4edb548"},
    {536870912ull, "7c6f0ffc963b9b9d1d87f3516d2198f4254f9812ffb35ba132c47e49b8e18acf"},
    {536870949ull, "5d7e2339e332be9f87ab129c7a0c00c75b2b0495ff69c05c74f7696ab865cd8f"},
    {4294967295ull, "e746a82915e0feba0a693135a36a244bc3440f053358f2c468955cb732842d6d"},
    {4294967296ull, "53ba3e4705e07d2b8e1951e951fa956efd4ad2fd821eaeba9eb3732c3f7c1b6e"},
    {4294967333ull, "304a36c80dc3389c8ed1fdd3367c89b7450ca0cba21bb60f3eb5d0c2e97d5ba3"},
};
void run_huge(int upto)
{
    rng.seed = 1;
    set_op("hashing a huge message");
    std::vector<unsigned char> blk(1 << 20); for (uint64_t i = 0; i < blk.size(); i++) blk[i] = (unsigned char) ((i * 2654435761ull >> 13) ^ (i >> 7));
    EVP_MD_CTX *c = EVP_MD_CTX_new(), *x = EVP_MD_CTX_new(); SIM_CHECK(EVP_DigestInit_ex(c, md, nullptr) == 1, "init-failed", "digest initialisation failed");
    uint64_t n = 0; uint32_t split = choose(3, "split");
    for (int k = 0; k < upto; k++)
    {
        while (n < huge[k].n)
        {
            size_t o = n % blk.size(), p = blk.size() - o; if (p > huge[k].n - n) p = (size_t) (huge[k].n - n);
            if (split == 1 && p > 77777) p = 77777;
            if (split == 2 && p > 4096) p = 4096;
            SIM_CHECK(EVP_DigestUpdate(c, &blk[o], p) == 1, "update-failed", "update failed after %llu bytes", (unsigned long long) n); n += p;
        }
        unsigned char o[64]; unsigned l = 0; SIM_CHECK(EVP_MD_CTX_copy_ex(x, c) == 1 && EVP_DigestFinal_ex(x, o, &l) == 1, "final-failed", "a digest cannot be finished");
        SIM_CHECK(l == 32 && hex(o, l) == huge[k].d, "wrong-digest", "the digest of %llu bytes is %s instead of %s", (unsigned long long) n, hex(o, l).c_str(), huge[k].d);
        ev("digest of %llu bytes", (unsigned long long) n);
    }
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(x);
    probe("huge message");
}
void run_c03h() { run_huge(5); }
void run_c03g() { run_huge(8); }

void run_c04l()
{
    rng.seed = 1 + choose(1u << 30, "rng");
    set_op("encrypting long data");
    Bytes unit = rbytes(257, "data"), m, key = rbytes(32, "key"), iv = rbytes(8, "iv"), sb = choose(2, "table") ? pick_sbox() : Bytes(); size_t n = long_size();
    while (m.size() < n) m.insert(m.end(), unit.begin(), unit.begin() + std::min(unit.size(), n - m.size()));
    bool enc = choose(2, "decrypt") == 0, inplace = choose(2, "in place") != 0; Bytes o = inplace ? m : Bytes(n + 8);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    SIM_CHECK(EVP_CipherInit_ex(c, ciph, nullptr, key.data(), iv.data(), enc) == 1 && (sb.empty() || EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX, 64, sb.data()) == 1), "init-failed", "cipher initialisation failed");
    size_t at = 0;
    for (int guard = 0; at < n; guard++)
    {
        size_t p = guard > 3900 ? n - at : long_piece(n - at); int l = 0;
        SIM_CHECK(EVP_CipherUpdate(c, &o[at], &l, inplace ? &o[at] : &m[at], (int) p) == 1 && l == (int) p, "update-failed", "encryption failed after %zu bytes", at);
        at += p;
        if (guard < 3 && choose(4, "copy") == 3) { EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); SIM_CHECK(EVP_CIPHER_CTX_copy(x, c) == 1, "copy-failed", "copy failed"); EVP_CIPHER_CTX_free(c); c = x; }
        fault(F_SHORT_READ);
    }
    EVP_CIPHER_CTX_free(c);
    Bytes want = model::cfb(key.data(), sb.empty() ? model::default_sbox : sb.data(), iv.data(), m, enc); size_t i = 0; while (i < n && o[i] == want[i]) i++;
    SIM_CHECK(i == n, "wrong-output", "%s of %zu bytes is wrong from byte %zu", enc ? "encryption" : "decryption", n, i);
    probe("long data");
}
}
extern const Workload wl_c03l = {"C03L", setup, run_c03l, 60, 3000};
extern const Workload wl_c03h = {"C03H", setup, run_c03h, 1, 3};
extern const Workload wl_c03g = {"C03G", setup, run_c03g, 0, 1};
extern const Workload wl_c04l = {"C04L", setup, run_c04l, 100, 5000};
extern const Workload wl_c03 = {"C03", setup, run_c03, 8000, 300000};
extern const Workload wl_c04 = {"C04", setup, run_c04, 8000, 300000};
