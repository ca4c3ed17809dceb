// C16: encrypted messages (CMS EncryptedData and EnvelopedData, cipher filters) over streams and storage that fail, cut and alter.
#include "sim.h"
#include "model.h"
#include "common.h"
#include <openssl/pem.h>
#include <openssl/aes.h>
#include <openssl/cms.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
using namespace sim;

namespace {
const EVP_CIPHER *ciph;
const char *OID_ENCRYPTED = "1.2.840.113549.1.7.6";

void setup()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    ciph = ENGINE_get_cipher(sut::e, OBJ_txt2nid(model::OID_CFB));
    if (!ciph) { fprintf(stderr, "engine lacks the cipher\n"); _exit(77); }
    // libcrypto's caches
    unsigned char k[32] = {1}; BIO *in = BIO_new_mem_buf("warm", 4), *out = BIO_new(BIO_s_mem());
    CMS_ContentInfo *c = CMS_EncryptedData_encrypt(in, EVP_aes_128_cbc(), k, 16, CMS_BINARY); if (c) CMS_EncryptedData_decrypt(c, k, 16, nullptr, out, CMS_BINARY);
    CMS_ContentInfo_free(c); BIO_free(in); BIO_free(out); ERR_clear_error();
}

// ---- BER: definite and indefinite lengths, strings in pieces
struct Ber { unsigned tag = 0; bool cons = false; Bytes val; std::vector<Ber> sub; };
bool ber(const unsigned char *&p, const unsigned char *e, Ber *o, int depth = 0)
{
    if (depth > 30 || e - p < 2 || (*p & 0x1f) == 0x1f) return false;
    o->tag = *p++; o->cons = o->tag & 0x20;
    size_t l = *p++;
    if (l == 0x80)
    {
        if (!o->cons) return false;
        for (;;) { if (e - p < 2) return false; if (!p[0] && !p[1]) { p += 2; return true; } Ber s; if (!ber(p, e, &s, depth + 1)) return false; o->sub.push_back(s); }
    }
    if (l > 0x80) { size_t n = l & 0x7f; if (n > 4 || (size_t) (e - p) < n) return false; for (l = 0; n--; ) l = l << 8 | *p++; }
    if ((size_t) (e - p) < l) return false;
    const unsigned char *q = p + l;
    if (!o->cons) { o->val.assign(p, q); p = q; return true; }
    while (p < q) { Ber s; if (!ber(p, q, &s, depth + 1)) return false; o->sub.push_back(s); }
    return p == q;
}
bool pieces(const Ber &b, Bytes *o) { if (!b.cons) { o->insert(o->end(), b.val.begin(), b.val.end()); return true; } for (auto &s : b.sub) if ((s.tag & ~0x20u) != 4 || !pieces(s, o)) return false; return true; }

// what an encrypted message says
struct Says { bool ok = false, has_content = false; Bytes iv, table, text, wrapped; };
Says read_msg(const Bytes &der)
{
    Says s; const unsigned char *p = der.data(); Ber r;
    if (!ber(p, der.data() + der.size(), &r) || p != der.data() + der.size() || r.sub.size() != 2 || r.sub[1].sub.size() != 1) return s;
    Ber &d = r.sub[1].sub[0], *eci = nullptr;
    for (auto &x : d.sub) { if (x.tag == 0x30) { eci = &x; break; } if (x.tag == 0x31 && x.sub.size() == 1 && x.sub[0].tag == 0xa2 && x.sub[0].sub.size() == 4) s.wrapped = x.sub[0].sub[3].val; }
    if (!eci || eci->sub.size() < 2 || eci->sub[1].tag != 0x30) return s;
    Ber &alg = eci->sub[1]; Bytes o = model::oid(model::OID_CFB);
    if (alg.sub.size() != 2 || alg.sub[0].tag != 6 || alg.sub[0].val != Bytes(o.begin() + 2, o.end())) return s;
    Ber &par = alg.sub[1];
    if (par.tag != 0x30 || par.sub.size() != 2 || par.sub[0].tag != 4 || par.sub[0].val.size() != 8 || par.sub[1].tag != 4 || par.sub[1].val.size() != 64) return s;
    s.iv = par.sub[0].val; s.table = par.sub[1].val;
    if (eci->sub.size() > 2) { if ((eci->sub[2].tag & ~0x20u) != 0x80 || !pieces(eci->sub[2], &s.text)) return s; s.has_content = true; }
    s.ok = true;
    return s;
}

Bytes to_pem(const Bytes &der) { Quiet q; BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio(b, "CMS", "", der.data(), (long) der.size()); char *p; long n = BIO_get_mem_data(b, &p); Bytes o(p, p + n); BIO_free(b); return o; }
bool from_pem(const Bytes &pem, Bytes *der) { Quiet q; BIO *b = BIO_new_mem_buf(pem.data(), (int) pem.size()); char *nm = nullptr, *hd = nullptr; unsigned char *d = nullptr; long n = 0; bool ok = PEM_read_bio(b, &nm, &hd, &d, &n) == 1; if (ok) der->assign(d, d + n); OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d); BIO_free(b); ERR_clear_error(); return ok; }

struct Msg { bool kek = false, stream = false, pem = false; Bytes key, kek_id, content, stored; };

// the library encrypts
bool lib_encrypt(Msg *m, Stream *in, Stream *out)
{
    BIO *b = new_bio(in), *o = new_bio(out); unsigned fl = CMS_BINARY | (m->stream ? CMS_STREAM : 0); CMS_ContentInfo *c = nullptr; bool ok = true;
    if (!m->kek) c = CMS_EncryptedData_encrypt(b, ciph, m->key.data(), m->key.size(), fl);
    else
    {
        c = CMS_encrypt(nullptr, b, ciph, fl | CMS_PARTIAL);
        unsigned char *k = nullptr, *i = nullptr; { Quiet q; k = (unsigned char *) OPENSSL_memdup(m->key.data(), m->key.size()); i = (unsigned char *) OPENSSL_memdup(m->kek_id.data(), m->kek_id.size()); }
        if (c && CMS_add0_recipient_key(c, m->key.size() == 16 ? NID_id_aes128_wrap : NID_id_aes256_wrap, k, m->key.size(), i, m->kek_id.size(), nullptr, nullptr, nullptr)) k = i = nullptr;
        else ok = false;
        OPENSSL_free(k); OPENSSL_free(i);
        if (ok && !m->stream) ok = CMS_final(c, b, nullptr, fl) == 1;
    }
    ok = ok && c;
    if (ok && m->stream) ok = (m->pem ? PEM_write_bio_CMS_stream(o, c, b, (int) fl) : i2d_CMS_bio_stream(o, c, b, (int) fl)) == 1;
    else if (ok) { unsigned char *d = nullptr; int n = i2d_CMS_ContentInfo(c, &d); ok = n > 0; if (ok) { Bytes x(d, d + n); out->out = m->pem ? to_pem(x) : x; } OPENSSL_free(d); }
    CMS_ContentInfo_free(c); BIO_free(b); BIO_free(o);
    return ok;
}

struct Got { bool parsed = false, ok = false; Bytes out; };
Got lib_decrypt(bool kek, const Bytes &key, const Bytes &id, const Bytes &stored, bool pem, Stream *st, const Bytes *det, Stream *ds)
{
    Got r; st->data = stored; if (!pem) st->first = 8;
    BIO *b = new_bio(st), *out; { Quiet q; out = BIO_new(BIO_s_mem()); }
    if (!pem) b = BIO_push(BIO_new(BIO_f_buffer()), b);     // libcrypto wants the headers of indefinite forms in one piece
    BIO *db = nullptr; if (det) { ds->data = *det; db = new_bio(ds); }
    CMS_ContentInfo *c = pem ? PEM_read_bio_CMS(b, nullptr, nullptr, nullptr) : d2i_CMS_bio(b, nullptr);
    r.parsed = c != nullptr;
    if (c && !kek) r.ok = CMS_EncryptedData_decrypt(c, key.data(), key.size(), db, out, CMS_BINARY) == 1;
    else if (c)
    {
        unsigned char *k; { Quiet q; k = (unsigned char *) OPENSSL_memdup(key.data(), key.size()); }
        if (OBJ_obj2nid(CMS_get0_type(c)) == NID_pkcs7_enveloped) r.ok = CMS_decrypt_set1_key(c, k, key.size(), id.data(), id.size()) == 1 && CMS_decrypt(c, nullptr, nullptr, db, out, CMS_BINARY) == 1;
        OPENSSL_free(k);
    }
    CMS_ContentInfo_free(c);
    { Quiet q; char *p; long n = BIO_get_mem_data(out, &p); if (n > 0) r.out.assign(p, p + n); BIO_free(out); }
    BIO_free(db); BIO_free_all(b);
    if (getenv("SIM_ERR")) ERR_print_errors_fp(stderr);
    ERR_clear_error();
    return r;
}

Bytes model_msg(const Bytes &key, const Bytes &iv, const Bytes &par, const Bytes &table, const Bytes &content, bool detached, Bytes *text)
{
    *text = model::cfb(key.data(), table.data(), iv.data(), content, true);
    Bytes ec;
    if (detached) ec.clear();
    else if (choose(3, "pieces") == 2 && text->size() > 1)
    {
        Bytes body; for (size_t at = 0; at < text->size(); ) { size_t n = 1 + choose((uint32_t) (text->size() - at), "piece"); if (body.size() > 3000) n = text->size() - at; Bytes x = model::octets(Bytes(text->begin() + (long) at, text->begin() + (long) (at + n))); body.insert(body.end(), x.begin(), x.end()); at += n; }
        ec = model::tlv(0xa0, body);
    }
    else ec = model::tlv(0x80, *text);
    return model::seq({model::oid(OID_ENCRYPTED), model::tlv(0xa0, model::seq({model::integer(0), model::seq({model::oid(model::OID_DATA), model::seq({model::oid(model::OID_CFB), par}), ec})}))});
}

Bytes content()
{
    switch (choose(7, "content")) { case 0: return rbytes(1 + choose(40, "n"), "content"); case 1: return rbytes(8 * (1 + choose(10, "n")), "content"); case 2: return rbytes(1 + choose(9000, "n"), "content"); case 3: return Bytes(1 + choose(300, "n"), (unsigned char) choose(256, "byte")); case 4: return rbytes(1024 * (1 + choose(4, "n")) + choose(3, "more"), "content"); case 5: { Bytes u = rbytes(1 + choose(200, "unit"), "content"), o; size_t n = 20000 + choose(50000, "n"); while (o.size() < n) o.insert(o.end(), u.begin(), u.end()); return o; } default: return rbytes(4096 * (1 + choose(2, "n")), "content"); }
}
void deliver(Stream *s) { s->style = s->data.size() > 20000 ? 0 : (int) choose(3, "delivery"); }
bool drawn(const Bytes &b) { for (auto &g : rng.given) if (g.size() >= b.size() && std::search(g.begin(), g.end(), b.begin(), b.end()) != g.end()) return true; return false; }

// ---- a cipher as a filter over a stream
void filter()
{
    set_op("an encrypting filter");
    Bytes key = pick_key(), iv = rbytes(8, "iv"), table = choose(2, "table") ? pick_sbox() : Bytes(model::default_sbox, model::default_sbox + 64), in = content();
    bool enc = choose(2, "decrypt") == 0, writing = choose(2, "writing") != 0;
    Bytes want = model::cfb(key.data(), table.data(), iv.data(), in, enc), got; size_t expect = in.size(); bool failing = false;
    Stream s; s.data = in; deliver(&s); s.wstyle = in.size() > 20000 ? 0 : (int) choose(3, "writes");
    if (choose(3, "would block") == 2) { if (writing) s.wretry = 2 + choose(6, "one in"); else { s.retry_at = (long) choose((uint32_t) in.size() + 1, "would block at"); s.retry_once = true; } }
    if (choose(4, "failing") == 3)
    {
        failing = true;
        if (writing) s.cap = (long) choose((uint32_t) in.size() + 1, "full at"); else if (choose(2, "error")) s.err_at = (long) choose((uint32_t) in.size() + 1, "error at"); else s.eof_at = (long) choose((uint32_t) in.size() + 1, "end at");
        if (!writing && s.err_at >= 0) expect = (size_t) s.err_at; if (!writing && s.eof_at >= 0) expect = (size_t) s.eof_at;
        if (writing) expect = std::min(expect, (size_t) s.cap);
    }
    Stream orig = s; uint64_t pos = choice_pos(); (void) pos;
    leak_check([&] {
        s = orig; got.clear();
        BIO *b = new_bio(&s), *f = BIO_new(BIO_f_cipher()); EVP_CIPHER_CTX *c = nullptr;
        SIM_CHECK(f && b && BIO_set_cipher(f, ciph, key.data(), iv.data(), enc) == 1 && BIO_get_cipher_ctx(f, &c) == 1, "init-failed", "a cipher filter cannot be set up");
        SIM_CHECK(EVP_CIPHER_CTX_ctrl(c, 0x1001, 64, table.data()) > 0, "init-failed", "the filter's table cannot be set");
        BIO_push(f, b);
        if (!writing)
        {
            unsigned char buf[700];
            for (int guard = 0; guard < 400000; guard++)
            {
                int n = BIO_read(f, buf, 1 + (int) choose(in.size() > 2000 ? 1 : 600, "ask") + (in.size() > 2000 ? 698 : 0));
                if (n > 0) { got.insert(got.end(), buf, buf + n); continue; }
                if (BIO_should_retry(f)) continue;
                break;
            }
        }
        else
        {
            size_t at = 0; int stuck = 0;
            while (at < in.size() && stuck < 3000)
            {
                size_t n = in.size() > 2000 ? 1777 : 1 + choose(600, "offer"); if (n > in.size() - at) n = in.size() - at;
                int w = BIO_write(f, &in[at], (int) n);
                if (w > 0) { at += (size_t) w; stuck = 0; } else { stuck++; if (!BIO_should_retry(f)) { if (failing) break; } }
            }
            for (int guard = 0; guard < 3000; guard++) { if (BIO_flush(f) == 1) break; if (!BIO_should_retry(f)) break; }
            got = s.out;
        }
        BIO_free_all(f);
    }, "using a cipher as a filter");
    ev("filter %s %zu bytes in %zu out", writing ? "written" : "read", in.size(), got.size());
    size_t cmp = std::min(got.size(), want.size());
    SIM_CHECK(got.size() <= want.size() && !memcmp(got.data(), want.data(), cmp), "wrong-output", "a filter that %s gives %zu bytes that are not those of the cipher over %zu", enc ? "encrypts" : "decrypts", got.size(), in.size());
    if (!failing) SIM_CHECK(got.size() == want.size(), "lost-output", "a filter gives %zu of %zu bytes although nothing failed", got.size(), want.size());
    else SIM_CHECK(got.size() <= expect, "wrong-output", "more came out (%zu) than was delivered (%zu)", got.size(), expect);
    probe(writing ? "filter, writing" : "filter, reading"); if (failing) probe("filter over a failing stream");
}

void run()
{
    set_op("an encrypted message"); set_step_budget(2000000000);
    rng.seed = 1 + choose(1u << 30, "rng"); rng.keep = true;
    uint32_t mode = strat(8, "mode");
    if (mode == 7) { filter(); return; }
    Msg m; m.content = content(); m.pem = choose(3, "pem") == 2;
    Bytes dek, iv, table(model::default_sbox, model::default_sbox + 64), text, der, plain = m.content; bool detached = false; uint32_t form = choose(3, "form");
    if (form < 2)
    {
        // ---- the library makes the message
        m.kek = form == 1; m.stream = choose(2, "stream") != 0; m.key = m.kek ? rbytes(choose(2, "kek size") ? 16 : 32, "kek") : pick_key(); m.kek_id = rbytes(1 + choose(8, "n"), "id");
        Stream in; in.data = m.content; deliver(&in); uint32_t f = mode == 1 || mode == 2 ? 1 + choose(5, "encryption fault") : 0;
        size_t lim = m.content.size();
        switch (f)
        {
        case 1: lim = (size_t) (in.err_at = (long) choose((uint32_t) lim + 1, "error at")); break;
        case 2: lim = (size_t) (in.eof_at = (long) choose((uint32_t) lim + 1, "end at")); break;
        case 3: lim = (size_t) (in.retry_at = (long) choose((uint32_t) lim + 1, "would block at")); in.retry_once = choose(2, "once") != 0; break;
        case 4: pick_rng_faults(); break;
        case 5: rng.fail_at = (long) choose(4, "fail at"); rng.fail_for = 1 + (long) choose(3, "for"); break;
        }
        bool ok = false; Stream out;
        leak_check([&] { Stream a = in; out = Stream(); rng.given.clear(); ok = lib_encrypt(&m, &a, &out); }, "encrypting a message");
        ERR_clear_error(); ev("encrypted %zu bytes: %d", m.content.size(), ok);
        if (!ok) { SIM_CHECK(f, "encrypt-failed", "encrypting fails although nothing is wrong"); probe("encrypting failed cleanly"); return; }
        m.stored = out.out; m.content.resize(std::min(lim, m.content.size())); if (f && f <= 3) probe("encrypted what a failing stream delivered");
        if (m.pem) SIM_CHECK(from_pem(m.stored, &der), "malformed", "an encrypted message in PEM cannot be read"); else der = m.stored;
        Says s = read_msg(der);
        SIM_CHECK(s.ok && (s.has_content || m.content.empty()), "malformed", "an encrypted message is not well formed: %s", hex(der).substr(0, 400).c_str());
        dek = m.key;
        if (m.kek)
        {
            Quiet q; AES_KEY ak; dek.assign(32, 0); AES_set_decrypt_key(m.key.data(), (int) m.key.size() * 8, &ak);
            SIM_CHECK(s.wrapped.size() == 40 && AES_unwrap_key(&ak, nullptr, dek.data(), s.wrapped.data(), 40) == 32, "malformed", "the wrapped content key is not a key of the cipher");
            SIM_CHECK(drawn(dek), "not-fresh", "the content key %s was not drawn for this message", hex(dek).c_str());
        }
        SIM_CHECK(drawn(s.iv), "not-fresh", "the IV %s was not drawn for this message", hex(s.iv).c_str());
        SIM_CHECK(s.table == table, "wrong-table", "the message names another table: %s", hex(s.table).c_str());
        SIM_CHECK(model::cfb(dek.data(), table.data(), s.iv.data(), s.text, false) == m.content, "wrong-content", "the message does not hold the encrypted content (%zu bytes, %zu given)", s.text.size(), m.content.size());
        iv = s.iv; text = s.text; plain = m.content;
        rng.fail_at = -1; rng.odd = 0;
        probe(m.kek ? "message for a wrapping key" : "message under a key"); if (m.stream) probe("streamed message");
        if (m.content.empty()) { probe("nothing was delivered"); return; }
    }
    else
    {
        m.key = dek = pick_key(); iv = rbytes(8, "iv"); if (choose(3, "table")) table = pick_sbox(); detached = choose(4, "detached") == 3;
        Quiet q; der = model_msg(dek, iv, model::seq({model::octets(iv), model::octets(table)}), table, plain, detached, &text); m.stored = m.pem ? to_pem(der) : der;
        probe("message by the model");
    }
    // ---- storage, piecewise round trip
    Stream st, ds; st.data = m.stored; deliver(&st); ds.data = text; deliver(&ds);
    Got g; leak_check([&] { Stream a = st, b = ds; g = lib_decrypt(m.kek, m.key, m.kek_id, m.stored, m.pem, &a, detached ? &text : nullptr, &b); }, "decrypting a message");
    SIM_CHECK(g.parsed && g.ok, "rejected-valid", "a genuine encrypted message of %zu bytes is refused", plain.size());
    SIM_CHECK(g.out == plain, "wrong-content", "decryption gives %zu bytes that are not the content of %zu", g.out.size(), plain.size());
    probe(detached ? "separate content" : "content inside");
    if (mode <= 2) return;
    // ---- faults
    for (uint32_t t = 0, nt = 1 + choose(3, "attempts"); t < nt; t++)
    {
        Bytes k = m.key, stored = m.stored, d2, par, ntext = text; const char *what = nullptr; bool must = false, known = false; Bytes want; Stream s1 = st, s2 = ds;
        bool kek = m.kek, pem = m.pem; const Bytes *det = detached ? &ntext : nullptr; size_t tail = pem ? 4 : 0;
        if (mode == 3)
            switch (choose(6, "storage fault"))
            {
            case 0: stored.resize(choose((uint32_t) (stored.size() - tail), "keep")); what = "message cut"; must = true; fault(F_TRUNCATE); break;
            case 1: stored[choose((uint32_t) stored.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit")); what = "bit flipped"; fault(F_BITFLIP); break;
            case 2: { size_t at = choose(choose(2, "early") && stored.size() > 160 ? 160 : (uint32_t) stored.size(), "from"), n = 1 + choose(60, "n"); Bytes r = rbytes(n, "junk"); for (size_t i = 0; i < n && at + i < stored.size(); i++) stored[at + i] = r[i]; what = "overwritten"; fault(F_OVERWRITE); break; }
            case 3: { size_t at = choose((uint32_t) stored.size(), "from"); for (size_t i = at; i < stored.size(); i++) stored[i] = 0; what = "torn"; fault(F_TRUNCATE); break; }
            case 4: s1.err_at = (long) choose((uint32_t) (stored.size() - tail), "error at"); must = true; what = "read error"; break;
            default: stored[choose(stored.size() > 160 ? 160 : (uint32_t) stored.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit")); what = "bit flipped early"; fault(F_BITFLIP); break;
            }
        else if (mode == 4)
        {
            // another key
            if (choose(2, "bit")) k[choose((uint32_t) k.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit")); else k = rbytes(k.size(), "key");
            if (k == m.key) continue;
            what = "another key"; fault(F_OVERWRITE);
            if (kek) must = true; else { known = true; want = model::cfb(k.data(), table.data(), iv.data(), text, false); }
        }
        else if (mode == 5)
        {
            // described strangely
            Quiet q; kek = false; k = dek; pem = false; det = nullptr; Bytes niv = iv, ntab = table, nt2; what = "odd parameters"; must = true; fault(F_OVERWRITE);
            switch (choose(17, "odd"))
            {
            case 0: par.clear(); break;
            case 1: par = model::null(); break;
            case 2: par = model::octets(iv); break;
            case 3: par = model::seq({model::octets(iv)}); must = false; known = true; want = model::cfb(k.data(), model::default_sbox, iv.data(), text, false); break;
            case 4: { Bytes x = rbytes(choose(80, "size"), "iv"); if (x.size() == 8) continue; par = model::seq({model::octets(x), model::octets(table)}); break; }
            case 5: { Bytes x = rbytes(choose(140, "size"), "table"); if (x.size() == 64) continue; par = model::seq({model::octets(iv), model::octets(x)}); break; }
            case 6: par = model::seq({model::octets(table), model::octets(iv)}); break;
            case 7: par = model::seq({model::tlv(choose(2, "tag") ? 3 : 12, iv), model::octets(table)}); break;
            case 8: par = model::seq({model::octets(iv), model::tlv(choose(2, "tag") ? 3 : 12, table)}); break;
            case 9: par = model::seq({model::octets(iv), model::octets(table), choose(2, "more") ? model::null() : model::octets(rbytes(choose(9, "n"), "more"))}); break;
            case 10: par = model::tlv(choose(2, "tag") ? 0x31 : 0xa0, model::cat({model::octets(iv), model::octets(table)})); break;
            case 11: par = model::tlv(0x30, rbytes(choose(2, "same size") ? 76 : choose(160, "size"), "junk")); { Says s0; (void) s0; } break;
            case 14: case 15: case 16: { static const int at[] = {0, 1, 2, 3, 12, 13}; par = model::seq({model::octets(iv), model::octets(table)}); unsigned char &b = par[(size_t) at[choose(6, "at")]]; if (choose(2, "bit")) b ^= (unsigned char) (1 << choose(8, "bit")); else b = (unsigned char) choose(256, "byte"); break; }
            case 12: niv = rbytes(8, "iv"); must = false; known = true; par = model::seq({model::octets(niv), model::octets(table)}); want = model::cfb(k.data(), table.data(), niv.data(), text, false); what = "another IV"; break;
            default: if (choose(2, "bit")) ntab[choose(64, "at")] ^= (unsigned char) (1 << choose(8, "bit")); else ntab = pick_sbox(); must = false; known = true; par = model::seq({model::octets(iv), model::octets(ntab)}); want = model::cfb(k.data(), ntab.data(), iv.data(), text, false); what = "another table"; break;
            }
            stored = model::seq({model::oid(OID_ENCRYPTED), model::tlv(0xa0, model::seq({model::integer(0), model::seq({model::oid(model::OID_DATA), model::seq({model::oid(model::OID_CFB), par}), model::tlv(0x80, text)})}))});
            if (read_msg(stored).ok && must) continue;
            s1 = Stream(); s1.data = stored; deliver(&s1);
        }
        else
        {
            if (detached && choose(2, "content"))
            {
                long at = (long) choose((uint32_t) text.size() + 1, "stop at"); if (choose(2, "error")) s2.err_at = at; else s2.eof_at = at;
                what = "content cut short"; known = true; want.assign(plain.begin(), plain.begin() + at);
            }
            else
            {
                Quiet q; Bytes x; { std::vector<Node> v; if (!parse_nodes(der.data(), der.data() + der.size(), &v)) continue; } x = der_mangle(der); if (x == der) continue;
                stored = pem ? to_pem(x) : x; what = "elements exchanged"; fault(F_OVERWRITE);
            }
        }
        Got c; leak_check([&] { Stream a = s1, b = s2; c = lib_decrypt(kek, k, m.kek_id, stored, pem, &a, det, &b); }, what);
        ev("%s: parsed %d decrypted %d %zu bytes", what, c.parsed, c.ok, c.out.size());
        probe(what);
        SIM_CHECK(!must || !c.ok, "accepted-invalid", "a message is decrypted although it cannot be: %s", what);
        if (!c.ok) { if (known && what[0] == 'a') SIM_CHECK(false, "rejected-valid", "a well-formed message is refused: %s", what); continue; }
        if (known) { SIM_CHECK(c.out == want, "wrong-content", "decryption (%s) does not give what the message says: %zu bytes instead of %zu", what, c.out.size(), want.size()); continue; }
        Bytes x = stored; if (pem && !from_pem(stored, &x)) { probe("unusual form accepted"); continue; }
        Says s = read_msg(x);
        if (!s.ok || kek) { if (!kek && c.out != plain) probe("unusual form accepted with other content"); else probe("unusual form accepted"); continue; }
        if (det) s.text = *det;
        SIM_CHECK(c.out == model::cfb(dek.data(), s.table.data(), s.iv.data(), s.text, false), "wrong-content", "decryption of damaged bytes (%s) does not give what they say", what);
        probe("decrypted exactly what damaged bytes say");
    }
    // and the original still decrypts
    Stream a = st, b = ds; g = lib_decrypt(m.kek, m.key, m.kek_id, m.stored, m.pem, &a, detached ? &text : nullptr, &b);
    SIM_CHECK(g.ok && g.out == plain, "rejected-valid", "a genuine message is refused after damaged ones");
}
}
extern const Workload wl_c16 = {"C16", setup, run, 8000, 400000};
