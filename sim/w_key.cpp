// C07: keys written to and read back from a storage that delivers pieces, fails, loses and corrupts.
#include "sim.h"
#include "model.h"
#include "common.h"
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <set>
using namespace sim;

namespace {
int nid_le, nid_be;
const EVP_CIPHER *cfb;
const EVP_MD *md;

void setup()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    nid_le = OBJ_txt2nid(model::OID_LE); nid_be = OBJ_txt2nid(model::OID_BE);
    cfb = ENGINE_get_cipher(sut::e, OBJ_txt2nid(model::OID_CFB));
    md = ENGINE_get_digest(sut::e, OBJ_txt2nid(model::OID_HASH));
    if (!cfb || !md || !nid_le || !nid_be) { fprintf(stderr, "engine lacks algorithms\n"); _exit(77); }
}

enum Kind { PUB, PRIV, PARAM, ENCRYPTED };
const char *kind_name[] = {"public key", "private key", "parameters", "encrypted private key"};

// what an encoding says, field by field
struct Said {
    bool ok = false, le = false, has_pub = false, has_priv = false;
    Bytes sbox; std::vector<long> poly; long a = 0; std::string b, n, bp, pub, d;      // integers in hex
    bool operator==(const Said &o) const { return le == o.le && sbox == o.sbox && poly == o.poly && a == o.a && b == o.b && n == o.n && bp == o.bp; }
};
std::string num(Bytes v, bool le)
{
    if (le) v = model::rev(v);
    BIGNUM *x = BN_bin2bn(v.data(), (int) v.size(), nullptr); char *h = BN_bn2hex(x); std::string s = h; OPENSSL_free(h); BN_free(x);
    return s;
}
bool small(const model::Der &d, long *v) { if (d.tag != 2 || d.len < 1 || d.len > 8 || (d.p[0] & 0x80)) return false; *v = 0; for (size_t i = 0; i < d.len; i++) *v = *v << 8 | d.p[i]; return true; }
bool said_params(const unsigned char *p, const unsigned char *e, Said *s)
{
    model::Der d, x, y, z;
    if (!model::der_next(p, e, &d) || d.tag != 0x30 || p != e) return false;
    p = d.p; e = d.p + d.len;
    if (!model::der_next(p, e, &x)) return false;
    s->sbox.assign(model::default_sbox, model::default_sbox + 64);
    if (p < e) { if (!model::der_next(p, e, &y) || y.tag != 4 || p != e) return false; s->sbox.assign(y.p, y.p + y.len); }
    if (x.tag == 6)
    {
        Bytes o(x.p - x.hdr, x.p + x.len);
        for (int c = 0; c < 10; c++)
            if (model::oid(("1.2.804.2.1.1.1.1.3.1.1.2." + std::to_string(c)).c_str()) == o)
            {
                const model::Curve &C = model::curves[c];
                s->poly.assign(C.poly.begin(), C.poly.end()); s->a = C.a; BIGNUM *B = BN_new(); EC_GROUP_get_curve(C.g, nullptr, nullptr, B, nullptr);
                s->b = num(model::bnb(B, 80), false); BN_free(B); s->n = num(model::bnb(C.order, 80), false); s->bp = num(model::compress(C.g, EC_GROUP_get0_generator(C.g)), false);
                return true;
            }
        return false;
    }
    if (x.tag != 0x30) return false;
    p = x.p; e = x.p + x.len;
    long m, v[3];
    if (!model::der_next(p, e, &y) || y.tag != 0x30) return false;
    { const unsigned char *q = y.p, *qe = y.p + y.len;
      if (!model::der_next(q, qe, &z) || !small(z, &m) || !model::der_next(q, qe, &z) || q != qe) return false;
      if (z.tag == 2) { if (!small(z, v)) return false; s->poly = {m, v[0], 0}; }
      else if (z.tag == 0x30)
      {
          q = z.p; qe = z.p + z.len;
          for (int i = 0; i < 3; i++) if (!model::der_next(q, qe, &z) || !small(z, &v[i])) return false;
          if (q != qe) return false;
          s->poly = {m, v[2], v[1], v[0], 0};
      }
      else return false; }
    long a;
    if (!model::der_next(p, e, &y) || !small(y, &a)) return false;
    s->a = a;
    if (!model::der_next(p, e, &y) || y.tag != 4) return false; s->b = num(Bytes(y.p, y.p + y.len), s->le);
    if (!model::der_next(p, e, &y) || y.tag != 2 || !y.len || (y.p[0] & 0x80)) return false; s->n = num(Bytes(y.p, y.p + y.len), false);
    if (!model::der_next(p, e, &y) || y.tag != 4 || p != e) return false; s->bp = num(Bytes(y.p, y.p + y.len), s->le);
    return true;
}
bool said_alg(const unsigned char *&p, const unsigned char *e, Said *s)
{
    model::Der d, o; 
    if (!model::der_next(p, e, &d) || d.tag != 0x30) return false;
    const unsigned char *q = d.p, *qe = d.p + d.len;
    if (!model::der_next(q, qe, &o) || o.tag != 6) return false;
    Bytes b(o.p - o.hdr, o.p + o.len);
    if (b == model::oid(model::OID_LE)) s->le = true; else if (b == model::oid(model::OID_BE)) s->le = false; else return false;
    return said_params(q, qe, s);
}
Said said(const Bytes &der, Kind kind, bool le)
{
    Said s; const unsigned char *p = der.data(), *e = p + der.size(); model::Der d, x, y;
    if (kind == PARAM) { s.le = le; s.ok = said_params(p, e, &s); return s; }
    if (!model::der_next(p, e, &d) || d.tag != 0x30 || p != e) return s;
    p = d.p; e = d.p + d.len;
    if (kind == PUB)
    {
        if (!said_alg(p, e, &s) || !model::der_next(p, e, &x) || x.tag != 3 || p != e || x.len < 1 || x.p[0]) return s;
        const unsigned char *q = x.p + 1, *qe = x.p + x.len;
        if (!model::der_next(q, qe, &y) || y.tag != 4) return s;
        s.pub = num(Bytes(y.p, y.p + y.len), s.le); s.has_pub = true;
    }
    else
    {
        if (!model::der_next(p, e, &x) || x.tag != 2 || !said_alg(p, e, &s) || !model::der_next(p, e, &x) || x.tag != 4) return s;
        s.d = num(Bytes(x.p, x.p + x.len), true); s.has_priv = true;
    }
    s.ok = true;
    return s;
}

// --- PEM text, written independently
const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string pem(const Bytes &der, const std::string &label)
{
    std::string o = "-----BEGIN " + label + "-----\n", l;
    for (size_t i = 0; i < der.size(); i += 3)
    {
        unsigned v = der[i] << 16 | (i + 1 < der.size() ? der[i + 1] << 8 : 0) | (i + 2 < der.size() ? der[i + 2] : 0);
        l += B64[v >> 18]; l += B64[v >> 12 & 63]; l += i + 1 < der.size() ? B64[v >> 6 & 63] : '='; l += i + 2 < der.size() ? B64[v & 63] : '=';
    }
    for (size_t i = 0; i < l.size(); i += 64) o += l.substr(i, 64) + "\n";
    return o + "-----END " + label + "-----\n";
}
bool unpem(const Bytes &text, std::string *label, Bytes *der, size_t *end)
{
    std::string t(text.begin(), text.end());
    size_t a = t.find("-----BEGIN "); if (a == std::string::npos) return false;
    size_t b = t.find("-----\n", a + 11); if (b == std::string::npos) return false;
    *label = t.substr(a + 11, b - a - 11);
    size_t c = t.find("-----END " + *label + "-----", b); if (c == std::string::npos) return false;
    *end = c + 14 + label->size();
    std::string body = t.substr(b + 6, c - b - 6);
    unsigned v = 0; int n = 0; der->clear();
    for (char ch : body)
    {
        if (ch == '\n') continue;
        if (ch == '=') break;
        const char *q = strchr(B64, ch); if (!q) return false;
        v = v << 6 | (unsigned) (q - B64);
        if (++n == 4) { der->push_back(v >> 16); der->push_back(v >> 8); der->push_back(v); n = 0; v = 0; }
    }
    if (n == 3) { der->push_back(v >> 10); der->push_back(v >> 2); } else if (n == 2) der->push_back(v >> 4); else if (n) return false;
    return true;
}

struct Pass { Bytes b; };
int pass_cb(char *buf, int size, int, void *u)
{
    Pass *p = (Pass *) u; int n = (int) p->b.size(); if (n > size) n = size;
    memcpy(buf, p->b.data(), n);
    return n;
}

Bytes pick_pass() { Bytes b = rbytes(choose(20, "password"), "password"); for (auto &c : b) c = (unsigned char) (33 + c % 90); return b; }

X509_SIG *encrypt(EVP_PKEY *pk, const Bytes &pw, int iter)
{
    PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(pk);
    if (!i) return nullptr;
    X509_ALGOR *pbe = PKCS5_pbe2_set_iv(cfb, iter, nullptr, 0, nullptr, -1);
    X509_SIG *s = pbe ? PKCS8_set0_pbe((const char *) pw.data(), (int) pw.size(), i, pbe) : nullptr;
    if (!s) X509_ALGOR_free(pbe);
    PKCS8_PRIV_KEY_INFO_free(i);
    return s;
}

// what the stored encrypted key decrypts to; false: not in the plain form
bool open_pbes2(const Bytes &der, const Bytes &pw, Bytes *plain)
{
    const unsigned char *p = der.data(), *e = p + der.size(), *q, *qe; model::Der d, alg, ct, x, pp, kdf, enc, y;
    auto is = [](const model::Der &o, const char *dotted) { return Bytes(o.p - o.hdr, o.p + o.len) == model::oid(dotted); };
    if (!model::der_next(p, e, &d) || d.tag != 0x30 || p != e) return false;
    p = d.p; e = d.p + d.len;
    if (!model::der_next(p, e, &alg) || alg.tag != 0x30 || !model::der_next(p, e, &ct) || ct.tag != 4 || p != e) return false;
    q = alg.p; qe = q + alg.len;
    if (!model::der_next(q, qe, &x) || !is(x, model::OID_PBES2) || !model::der_next(q, qe, &pp) || pp.tag != 0x30 || q != qe) return false;
    q = pp.p; qe = q + pp.len;
    if (!model::der_next(q, qe, &kdf) || kdf.tag != 0x30 || !model::der_next(q, qe, &enc) || enc.tag != 0x30 || q != qe) return false;
    q = kdf.p; qe = q + kdf.len;
    if (!model::der_next(q, qe, &x) || !is(x, model::OID_PBKDF2) || !model::der_next(q, qe, &y) || y.tag != 0x30 || q != qe) return false;
    q = y.p; qe = q + y.len; long iter, kl = 32;
    if (!model::der_next(q, qe, &x) || x.tag != 4) return false; Bytes salt(x.p, x.p + x.len);
    if (!model::der_next(q, qe, &x) || !small(x, &iter) || iter < 1 || iter > 300 || !model::der_next(q, qe, &x)) return false;
    if (x.tag == 2) { if (!small(x, &kl) || kl != 32 || !model::der_next(q, qe, &x)) return false; }
    if (x.tag != 0x30 || q != qe) return false;
    q = x.p; qe = q + x.len;
    if (!model::der_next(q, qe, &x) || !is(x, model::OID_HMAC)) return false;
    q = enc.p; qe = q + enc.len;
    if (!model::der_next(q, qe, &x) || !is(x, model::OID_CFB) || !model::der_next(q, qe, &y) || y.tag != 0x30 || q != qe) return false;
    q = y.p; qe = q + y.len;
    if (!model::der_next(q, qe, &x) || x.tag != 4 || x.len != 8) return false; Bytes iv(x.p, x.p + 8);
    Bytes dke(model::default_sbox, model::default_sbox + 64);
    if (q < qe) { if (!model::der_next(q, qe, &x) || x.tag != 4 || x.len != 64 || q != qe) return false; dke.assign(x.p, x.p + 64); }
    Bytes key = model::pbkdf2(pw, salt, (int) iter, 32);
    *plain = model::cfb(key.data(), dke.data(), iv.data(), Bytes(ct.p, ct.p + ct.len), false);
    return true;
}

struct Stored { Kind kind; bool is_pem; Bytes bytes, pw; model::Key k; };

bool write_key(EVP_PKEY *pk, Stored *st, Stream *s)
{
    BIO *b = new_bio(s); int rc = 0;
    switch (st->kind)
    {
    case PUB: rc = st->is_pem ? PEM_write_bio_PUBKEY(b, pk) : i2d_PUBKEY_bio(b, pk); break;
    case PRIV: rc = st->is_pem ? (choose(2, "api") ? PEM_write_bio_PKCS8PrivateKey(b, pk, nullptr, nullptr, 0, nullptr, nullptr) : PEM_write_bio_PrivateKey(b, pk, nullptr, nullptr, 0, nullptr, nullptr)) : (choose(2, "api") ? i2d_PKCS8PrivateKeyInfo_bio(b, pk) : i2d_PKCS8PrivateKey_bio(b, pk, nullptr, nullptr, 0, nullptr, nullptr)); break;
    case PARAM:
        if (st->is_pem) rc = PEM_write_bio_Parameters(b, pk);
        else { unsigned char *o = nullptr; int n = i2d_KeyParams(pk, &o); rc = n > 0 && BIO_write(b, o, n) == n; OPENSSL_free(o); }
        break;
    case ENCRYPTED: { X509_SIG *x = encrypt(pk, st->pw, 1 + (int) choose(8, "iterations")); if (x) { rc = st->is_pem ? PEM_write_bio_PKCS8(b, x) : i2d_PKCS8_bio(b, x); X509_SIG_free(x); } break; }
    }
    BIO_free(b);
    return rc > 0;
}

EVP_PKEY *read_key(const Stored &st, Stream *s, Bytes pw)
{
    EVP_PKEY *r = nullptr; Pass pa{pw};
    uint32_t via = st.kind == PARAM && !st.is_pem ? 2 : choose(3, "source");
    FILE *f = via == 1 ? new_file(s, (int) choose(3, "buffering")) : nullptr;
    Guarded mem(st.bytes, (int) choose(2, "guard"));
    ev("via %u pw %zu", via, pw.size());
    if (!st.is_pem) s->first = 8;       // libcrypto's DER reader needs the header in one piece
    BIO *b = via == 0 ? new_bio(s) : via == 1 ? BIO_new_fp(f, BIO_NOCLOSE) : BIO_new_mem_buf(mem.p, (int) mem.n);
    if (st.is_pem)
        switch (st.kind)
        {
        case PUB: r = PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr); break;
        case PARAM: // libcrypto 3.0 reads PEM parameters of its own algorithms only
        {
            char *nm = nullptr, *hd = nullptr; unsigned char *d = nullptr; long n = 0;
            if (PEM_read_bio(b, &nm, &hd, &d, &n) == 1) { const unsigned char *p = d; r = d2i_KeyParams(st.k.le ? nid_le : nid_be, nullptr, &p, n); }
            OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d);
            break;
        }
        default: r = PEM_read_bio_PrivateKey(b, nullptr, pass_cb, &pa);
        }
    else
        switch (st.kind)
        {
        case PUB: r = d2i_PUBKEY_bio(b, nullptr); break;
        case PRIV:
            if (choose(2, "api")) r = d2i_PrivateKey_bio(b, nullptr);
            else { PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO_bio(b, nullptr); if (i) { r = EVP_PKCS82PKEY(i); PKCS8_PRIV_KEY_INFO_free(i); } }
            break;
        case PARAM: { const unsigned char *p = mem.p; r = d2i_KeyParams(st.k.le ? nid_le : nid_be, nullptr, &p, (long) mem.n); break; }
        case ENCRYPTED: r = d2i_PKCS8PrivateKey_bio(b, nullptr, pass_cb, &pa); break;
        }
    BIO_free(b);
    if (f) fclose(f);
    return r;
}

Bytes export_params(EVP_PKEY *pk) { unsigned char *o = nullptr; int n = i2d_KeyParams(pk, &o); Bytes r; if (n > 0) r.assign(o, o + n); OPENSSL_free(o); return r; }
Bytes export_same(EVP_PKEY *pk, Kind k) { return k == PUB ? model::export_pub(pk) : k == PARAM ? export_params(pk) : model::export_priv(pk); }

// every respect in which two keys can be the same
const char *note = "";
void check_same(EVP_PKEY *pk, EVP_PKEY *got, const Stored &st)
{
    Quiet q;
    const model::Key &k = st.k;
    SIM_CHECK(EVP_PKEY_id(got) == (k.le ? nid_le : nid_be), "wrong-key", "the key read back has another type");
    SIM_CHECK(EVP_PKEY_parameters_eq(pk, got) == 1 && EVP_PKEY_parameters_eq(got, pk) == 1, "not-equal", "the parameters read back (%s on %s) compare unequal%s", kind_name[st.kind], model::curve_name(k.curve).c_str(), note);
    SIM_CHECK(EVP_PKEY_bits(got) == EC_GROUP_get_degree(k.g()), "wrong-key", "the key read back has another size");
    SIM_CHECK(EVP_PKEY_size(got) == (int) model::octets(Bytes(2 * model::obytes(k.g()), 0)).size(), "wrong-key", "the key read back announces another signature size");
    SIM_CHECK(export_params(got) == model::params_der(k), "wrong-encoding", "parameters read back are exported differently");
    if (st.kind == PARAM) { int r = EVP_PKEY_eq(pk, got); SIM_CHECK(r != 1, "not-equal", "parameters without a key compare equal to a key"); r = EVP_PKEY_eq(got, got); (void) r; probe("parameters compared with a key"); ERR_clear_error(); return; }
    SIM_CHECK(EVP_PKEY_eq(pk, got) == 1 && EVP_PKEY_eq(got, pk) == 1, "not-equal", "the key read back (%s on %s) compares unequal", kind_name[st.kind], model::curve_name(k.curve).c_str());
    SIM_CHECK(model::export_pub(got) == model::spki(k), "wrong-encoding", "the public key read back is exported differently");
    if (st.kind != PUB) SIM_CHECK(model::export_priv(got) == model::pkcs8(k), "wrong-encoding", "the private key read back is exported differently");
    else SIM_CHECK(model::export_priv(got).empty(), "wrong-key", "a public key can be exported as private");
    ERR_clear_error();
    const unsigned char *tab = k.sbox.empty() ? model::default_sbox : k.sbox.data();
    if (choose(4, "interoperate") == 0)
    {
        Bytes msg = rbytes(20, "message");
        BIGNUM *r = BN_new(), *s = BN_new(), *e = BN_new(); BN_set_word(e, 12345 + choose(1u << 30, "nonce"));
        model::sign(k, model::hash(msg, tab), e, r, s);
        Bytes sig = model::octets(model::sig_raw(k.g(), r, s, k.le));
        EVP_MD_CTX *c = EVP_MD_CTX_new();
        SIM_CHECK(EVP_DigestVerifyInit(c, nullptr, md, nullptr, got) == 1 && EVP_DigestVerify(c, sig.data(), sig.size(), msg.data(), msg.size()) == 1, "not-interoperable", "a valid signature does not verify under the key read back");
        EVP_MD_CTX_free(c);
        if (st.kind != PUB)
        {
            c = EVP_MD_CTX_new(); unsigned char o[300]; size_t l = sizeof o; bool ok = false;
            for (int t = 0; t < 60 && !ok && (t == 0 || model::curves[k.curve].tiny); t++) { l = sizeof o; ok = EVP_DigestSignInit(c, nullptr, md, nullptr, got) == 1 && EVP_DigestSign(c, o, &l, msg.data(), msg.size()) == 1; if (!ok) { EVP_MD_CTX_free(c); c = EVP_MD_CTX_new(); } }
            SIM_CHECK(ok, "not-interoperable", "the key read back cannot sign");
            EVP_MD_CTX_free(c);
            const unsigned char *p = o; model::Der d; model::der_next(p, o + l, &d); Bytes raw(d.p, d.p + d.len); if (k.le) raw = model::rev(raw);
            int ob = model::obytes(k.g()); BN_bin2bn(raw.data(), ob, s); BN_bin2bn(raw.data() + ob, ob, r);
            SIM_CHECK(model::verify(k.g(), k.q, model::hash(msg, tab), r, s), "not-interoperable", "the key read back signs with another key");
        }
        BN_free(r); BN_free(s); BN_free(e);
        probe("key read back interoperates");
    }
}

// a key object that has only a type: everything about it is refused
void check_empty(EVP_PKEY *pk, const model::Key &k)
{
    EVP_PKEY *x; { Quiet q; x = EVP_PKEY_new(); EVP_PKEY_set_type(x, k.le ? nid_le : nid_be); }
    BIO *o = BIO_new(BIO_s_mem()); unsigned char *d = nullptr, in[32] = {1}, sig[200] = {4, 64}; size_t n = sizeof sig;
    set_op("using an empty key");
    switch (choose(8, "empty key"))
    {
    case 0: SIM_CHECK(i2d_PUBKEY(x, &d) <= 0, "empty-key", "an empty key was exported as a public key"); break;
    case 1: SIM_CHECK(i2d_PrivateKey(x, &d) <= 0, "empty-key", "an empty key was exported as a private key"); break;
    case 2: SIM_CHECK(i2d_KeyParams(x, &d) <= 0, "empty-key", "an empty key was exported as parameters"); break;
    case 3: EVP_PKEY_print_public(o, x, 0, nullptr); break;
    case 4: EVP_PKEY_print_private(o, x, 0, nullptr); break;
    case 5: EVP_PKEY_print_params(o, x, 0, nullptr); break;
    case 6:
        SIM_CHECK(EVP_PKEY_eq(x, pk) != 1 && EVP_PKEY_eq(pk, x) != 1 && EVP_PKEY_parameters_eq(x, pk) != 1 && EVP_PKEY_parameters_eq(pk, x) != 1, "called-equal", "an empty key compares equal to a full one");
        EVP_PKEY_get_size(x); EVP_PKEY_get_bits(x);
        break;
    default:
    {
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(x, nullptr);
        if (c && EVP_PKEY_sign_init(c) == 1) SIM_CHECK(EVP_PKEY_sign(c, sig, &n, in, 32) != 1, "empty-key", "an empty key signs");
        if (c && EVP_PKEY_verify_init(c) == 1) SIM_CHECK(EVP_PKEY_verify(c, sig, 66, in, 32) != 1, "empty-key", "an empty key verifies");
        EVP_PKEY_CTX_free(c);
    }
    }
    OPENSSL_free(d); BIO_free(o); ERR_clear_error();
    EVP_PKEY_free(x);
    ev("empty key"); probe("a key object without a key");
}

// keys that differ in anything are never called equal
void check_others(EVP_PKEY *pk, EVP_PKEY *got, const model::Key &k)
{
    Quiet q;
    model::Key o; BIGNUM *d = BN_dup(k.d); int curve = k.curve; bool le = k.le; Bytes sb = k.sbox; bool params = true; const char *what;
    switch (choose(5, "other key"))
    {
    case 0: what = "table"; sb = sb.empty() || choose(2, "custom") ? pick_sbox() : Bytes(); break;
    case 1: what = "table in one bit"; if (sb.empty()) sb.assign(model::default_sbox, model::default_sbox + 64); { uint32_t at = choose(512, "bit"); sb[at / 8] ^= (unsigned char) (1 << at % 8); } break;
    case 2: what = "private and public value"; params = false; if (BN_is_one(d)) BN_set_word(d, 2 + choose(3, "value")); else if (choose(2, "how")) BN_sub_word(d, 1); else BN_sub(d, model::curves[curve].order, d); break;
    case 3: what = "curve"; for (curve = (int) choose((uint32_t) model::curves.size(), "curve"); curve == k.curve; ) curve = (curve + 1) % (int) model::curves.size(); BN_set_word(d, 1 + choose(4, "value")); break;
    default: what = "byte order"; le = !le;
    }
    auto full = [](const Bytes &b) { return b.empty() ? Bytes(model::default_sbox, model::default_sbox + 64) : b; };
    if (sb.size() == 64 && full(sb) == full({})) sb.clear();
    o.set(curve, le, sb, d); BN_free(d);
    bool zero = true; for (auto x : model::compress(o.g(), o.q)) if (x) zero = false;
    bool same = curve == k.curve && le == k.le && full(sb) == full(k.sbox) && EC_POINT_cmp(k.g(), o.q, k.q, nullptr) == 0;
    bool same_params = curve == k.curve && le == k.le && full(sb) == full(k.sbox);
    EVP_PKEY *x = zero ? nullptr : choose(2, "private") ? model::import_priv(o) : model::import_pub(o);
    o.clear();
    if (!x) return;
    (void) params;
    for (EVP_PKEY *y : {pk, got})
    {
        SIM_CHECK((EVP_PKEY_eq(x, y) == 1) == same && (EVP_PKEY_eq(y, x) == 1) == same, same ? "not-equal" : "called-equal", "keys that %s compare %s", same ? "are the same" : (std::string("differ in their ") + what).c_str(), same ? "unequal" : "equal");
        SIM_CHECK((EVP_PKEY_parameters_eq(x, y) == 1) == same_params && (EVP_PKEY_parameters_eq(y, x) == 1) == same_params, same_params ? "not-equal" : "called-equal", "the parameters of keys that %s compare %s", same_params ? "share them" : (std::string("differ in their ") + what).c_str(), same_params ? "unequal" : "equal");
    }
    EVP_PKEY_free(x); ERR_clear_error();
    probe("compared with another key");
    if (chance(1, 6, "empty")) check_empty(pk, k);
}

// the library accepted stored bytes that are not what was written: only what they say
void check_said(EVP_PKEY *got, const Stored &st, const Bytes &der0)
{
    Quiet q;
    Bytes der = der0;
    if (st.kind == ENCRYPTED) { Bytes p; if (!open_pbes2(der0, st.pw, &p)) { probe("accepted another form of encryption"); return; } der = p; }
    Kind kd = st.kind == ENCRYPTED ? PRIV : st.kind;
    Said want = said(der, kd, st.k.le);
    if (!want.ok) { probe("accepted a form beyond strict DER"); return; }
    Bytes back = export_same(got, kd);
    ERR_clear_error();
    if (back.empty()) { probe("accepted key cannot be exported"); return; }
    Said have = said(back, kd, EVP_PKEY_id(got) == nid_le);
    SIM_CHECK(have.ok, "wrong-encoding", "an accepted key is exported in a form that is not DER: %s", hex(back).c_str());
    // coefficients and points are field elements
    auto red = [](Said &x) { for (long e : x.poly) if (e > 600) return; BIGNUM *b = nullptr, *p = BN_new(); std::vector<int> arr(x.poly.begin(), x.poly.end()); arr.push_back(-1); BN_GF2m_arr2poly(arr.data(), p); BN_hex2bn(&b, x.b.c_str()); BN_GF2m_mod(b, b, p); x.b = num(model::bnb(b, 100), false); BN_free(b); BN_free(p); };
    // a polynomial is the set of its exponents, in whatever order they were stored (two equal ones cancel)
    auto terms = [](Said &x) { std::sort(x.poly.rbegin(), x.poly.rend()); std::vector<long> t; for (long e : x.poly) if (!t.empty() && t.back() == e) t.pop_back(); else t.push_back(e); x.poly = t; };
    terms(have); terms(want);
    red(have); red(want);
    SIM_CHECK(have == want, "other-key", "stored bytes say one set of parameters, the accepted key has another:\n stored %s\n exported %s", hex(der).c_str(), hex(back).c_str());
    if (kd == PRIV) SIM_CHECK(have.d == want.d, "other-key", "the private value differs from the stored one:\n stored %s\n exported %s", hex(der).c_str(), hex(back).c_str());
    if (kd == PUB) SIM_CHECK(have.pub == want.pub, "other-key", "the public value differs from the stored one:\n stored %s\n exported %s", hex(der).c_str(), hex(back).c_str());
    // on the curve?
    for (long e : want.poly) if (e > 600) return;
    BIGNUM *p = BN_new(), *A = BN_new(), *B = nullptr; std::vector<int> arr(want.poly.begin(), want.poly.end()); arr.push_back(-1);
    BN_GF2m_arr2poly(arr.data(), p); BN_set_word(A, want.a); BN_hex2bn(&B, want.b.c_str());
    EC_GROUP *g = EC_GROUP_new_curve_GF2m(p, A, B, nullptr);
    if (g)
    {
        auto on = [&](const std::string &v) { BIGNUM *x = nullptr; BN_hex2bn(&x, v.c_str()); EC_POINT *P = model::expand(g, (int) want.a, model::bnb(x, BN_num_bytes(x))); bool ok = P != nullptr; EC_POINT_free(P); BN_free(x); return ok; };
        bool known = false; for (auto &c : model::curves) if (std::vector<long>(c.poly.begin(), c.poly.end()) == want.poly) known = true;   // a field polynomial known to be irreducible
        if (known) { SIM_CHECK(on(want.bp), "off-curve", "accepted base point is not on the curve: %s", hex(der).c_str()); if (kd == PUB) SIM_CHECK(on(want.pub), "off-curve", "accepted public point is not on the curve: %s", hex(der).c_str()); }
        EC_GROUP_free(g);
    }
    ERR_clear_error();
    BN_free(p); BN_free(A); BN_free(B);
    probe("accepted exactly what altered bytes say");
}

// alter the DER of a stored key in a way that still parses
Bytes alter(const Bytes &der, const model::Key &k, Kind kind, const char **what)
{
    Bytes o = der;
    auto flip = [&] { size_t b = choose((uint32_t) o.size() * 8, "bit"); o[b / 8] ^= (unsigned char) (1 << b % 8); };
    switch (choose(14, "alteration"))
    {
    case 0: flip(); *what = "bit flipped"; fault(F_BITFLIP); break;
    case 1: { uint32_t n = 2 + choose(6, "flips"); while (n--) flip(); *what = "bits flipped"; fault(F_BITFLIP); break; }
    case 2: { size_t a = choose((uint32_t) o.size(), "from"), n = 1 + choose(40, "len"); Bytes r = rbytes(n, "junk"); for (size_t i = 0; i < n && a + i < o.size(); i++) o[a + i] = r[i]; *what = "overwritten"; fault(F_OVERWRITE); break; }
    case 3: { size_t a = choose((uint32_t) o.size(), "from"); for (size_t i = a; i < o.size(); i++) o[i] = 0; *what = "tail zeroed"; fault(F_TRUNCATE); break; }
    case 4: { o[choose((uint32_t) o.size(), "at")] = (unsigned char) (choose(2, "hi") ? 0x80 + choose(5, "ll") : choose(256, "len")); *what = "length byte"; fault(F_LENFIELD); break; }
    case 5: { o[choose(o.size() < 40 ? (uint32_t) o.size() : 40, "at")] = (unsigned char) choose(256, "v"); *what = "header byte"; fault(F_LENFIELD); break; }
    case 6: { size_t a = choose((uint32_t) o.size(), "from"), n = 1 + choose(8, "len"); if (a + n > o.size()) n = o.size() - a; o.erase(o.begin() + a, o.begin() + a + n); *what = "bytes lost"; fault(F_TRUNCATE); break; }
    case 7: { size_t a = choose((uint32_t) o.size(), "at"); Bytes r = rbytes(1 + choose(8, "len"), "junk"); o.insert(o.begin() + a, r.begin(), r.end()); *what = "bytes inserted"; fault(F_SPLICE); break; }
    default:
    {
        // a rebuilt key with one hostile field
        Quiet q;
        const model::Curve &c = model::curves[k.curve]; Bytes b, bp = model::compress(c.g, EC_GROUP_get0_generator(c.g));
        BIGNUM *B = BN_new(); EC_GROUP_get_curve(c.g, nullptr, nullptr, B, nullptr); b = model::bnb(B, model::fbytes(c.g)); BN_free(B);
        Bytes m = model::integer(c.m), a = model::integer(c.a), n = model::integer_bn(c.order), sb;
        std::vector<int> pl = c.poly; Bytes pub = model::compress(k.g(), k.q), d = model::rev(model::bnb(k.d, BN_num_bytes(k.d))), oi;
        if (!k.sbox.empty()) sb = k.sbox;
        bool le = k.le; Bytes poly;
        static const char *names[] = {"degree", "exponent", "coefficient a", "coefficient b", "order", "base point", "table", "public value", "private value", "byte order", "curve name"};
        uint32_t f = choose(11, "field");
        static const long odd[] = {0, 1, 2, 3, 4, 8, 64, 255, 256, 431, 432, 508, 660, 661, 662, 1000, 4000, 65535, 1000000, 100000000, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967296L + 163, -1, -2, 9223372036854775807L};
        auto oddint = [&] { if (choose(8, "negative") == 7) return Bytes{2, 1, (unsigned char) (0x80 | choose(128, "v"))}; if (choose(8, "huge") == 7) return model::tlv(2, rbytes(9 + choose(60, "n"), "huge")); long v = odd[choose(sizeof odd / sizeof *odd, "value")]; if (v == -1) v = (1L << 32 << choose(20, "s")) + c.m; if (v == -2) v = (1L << 32) + c.poly[1]; return model::integer(v); };
        if (f == 0) m = oddint();
        if (f == 0 && choose(3, "giant") == 2) { long mm = 2001 + 2 * (long) choose(choose(2, "very") ? 100000 : 2000, "giant degree"); m = model::integer(mm); bp.insert(bp.begin(), mm / 8 + 1 - (long) bp.size(), 0); for (auto &x : bp) x |= 0x11; }
        if (f == 1) { if (choose(2, "form")) poly = oddint(); else poly = model::seq({choose(2, "k") ? model::integer(1) : oddint(), choose(2, "j") ? model::integer(2) : oddint(), choose(2, "l") ? model::integer(5) : oddint()}); }
        else poly = pl.size() == 3 ? model::integer(pl[1]) : model::seq({model::integer(pl[3]), model::integer(pl[2]), model::integer(pl[1])});
        if (f == 2) a = oddint();
        auto junk = [&](Bytes &v) { switch (choose(6, "how")) { case 0: v.clear(); break; case 1: v.assign(v.size(), 0); break; case 2: v = rbytes(v.size(), "junk"); break; case 3: v = rbytes(choose(100, "n"), "junk"); break; case 4: v.insert(v.begin(), 1 + choose(3, "n"), (unsigned char) choose(2, "v")); break; default: v.assign(v.size(), 0xff); } };
        if (f == 3) junk(b);
        if (f == 4) { if (choose(2, "form")) n = oddint(); else { Bytes t = model::bnb(c.order, model::obytes(c.g)); junk(t); n = model::tlv(2, t); } }
        if (f == 5) junk(bp);
        if (f == 6) { sb = rbytes(choose(2, "size") ? 60 + choose(9, "n") : choose(200, "n"), "junk"); }
        if (f == 7) junk(pub);
        if (f == 8) { BIGNUM *x = BN_dup(c.order); uint32_t t = choose(4, "t"); if (t == 0) BN_zero(x); else if (t == 1) BN_add_word(x, 1); else if (t == 2) BN_lshift(x, x, 5); d = model::rev(model::bnb(x, BN_num_bytes(x))); BN_free(x); if (choose(4, "j") == 3) junk(d); }
        if (f == 9) le = !le;
        if (f == 10) { static const char *o[] = {"1.2.804.2.1.1.1.1.3.1.1.2.10", "1.2.804.2.1.1.1.1.3.1.1.2", "1.2.840.10045.3.1.7", "1.3.132.0.16", "1.2.3"}; oi = model::oid(o[choose(5, "o")]); }
        if (k.le) { b = model::rev(b); bp = model::rev(bp); pub = model::rev(pub); }
        Bytes spec = f == 10 ? oi : (c.named >= 0 && f > 5) ? model::oid(("1.2.804.2.1.1.1.1.3.1.1.2." + std::to_string(c.named)).c_str()) : model::seq({model::seq({m, poly}), a, model::octets(b), n, model::octets(bp)});
        Bytes par = model::seq({spec, sb.empty() && f != 6 ? Bytes() : model::octets(sb)}), alg = model::seq({model::oid(le ? model::OID_LE : model::OID_BE), par});
        o = kind == PARAM ? par : kind == PUB ? model::seq({alg, model::bits(model::octets(pub))}) : model::seq({model::integer(0), alg, model::octets(d)});
        *what = names[f]; fault(F_LENFIELD); probe(names[f]);
    }
    }
    return o;
}

void run_c07()
{
    set_op("storing a key"); set_step_budget(2000000000);
    uint32_t mode = strat(10, "mode");
    Stored st; st.kind = (Kind) choose(4, "kind"); st.is_pem = choose(2, "pem") != 0;
    if (choose(3, "class") == 2) make_key(&st.k, model::first_custom, (int) model::curves.size()); else make_key(&st.k, 0, 10);
    st.pw = pick_pass();
    const model::Key &k = st.k;
    rng.seed = 1 + choose(1u << 30, "rng");
    EVP_PKEY *pk;
    uint32_t origin = choose(6, "origin");
    {
        Quiet q;
        if (origin == 5)
        {
            // a curve object as applications make them: cofactor absent, one, or the true one
            const model::Curve &c = model::curves[k.curve];
            EC_GROUP *g = EC_GROUP_dup(c.g); BIGNUM *cof = BN_new(); uint32_t how = choose(3, "cofactor");
            BN_set_word(cof, how == 0 ? 1 : how == 1 ? (c.named >= 0 || !c.tiny ? (c.a ? 2 : 4) : c.cof) : 0);
            EC_GROUP_set_generator(g, EC_GROUP_get0_generator(c.g), c.order, how == 2 ? nullptr : cof); BN_free(cof);
            EVP_PKEY_CTX *x = EVP_PKEY_CTX_new_id(k.le ? nid_le : nid_be, nullptr); pk = nullptr;
            bool ok = EVP_PKEY_keygen_init(x) == 1 && EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, 0x1002, 0, g) > 0;
            if (ok && !k.sbox.empty()) ok = EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, 0x1001, 64, (void *) k.sbox.data()) > 0;
            else if (ok && choose(2, "default table")) ok = EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, 0x1001, 64, (void *) model::default_sbox) > 0;
            ok = ok && EVP_PKEY_keygen(x, &pk) == 1;
            EVP_PKEY_CTX_free(x); EC_GROUP_free(g);
            SIM_CHECK(ok, "keygen-failed", "no key on a curve object");
            Bytes p8 = model::export_priv(pk); model::Key t;
            SIM_CHECK(!p8.empty() && model::read_pkcs8(p8, &t), "wrong-encoding", "a key on %s (cofactor form %d) is exported as %s", model::curve_name(k.curve).c_str(), how, hex(p8).c_str());
            bool zero = true; for (auto b : model::compress(t.g(), t.q)) if (b) zero = false;
            if (zero) discard("public point without an encoding");
            BIGNUM *d = BN_dup(t.d); st.k.set(k.curve, k.le, k.sbox, d); BN_free(d);
            note = how == 0 ? " (cofactor 1)" : how == 1 ? " (true cofactor)" : " (no cofactor)";
            probe(how == 0 ? "curve object with cofactor one" : how == 1 ? "curve object with true cofactor" : "curve object without cofactor");
        }
        else pk = st.kind == PUB && origin < 2 ? model::import_pub(k) : model::import_priv(k);
    }
    SIM_CHECK(pk != nullptr, "import-failed", "a valid key on %s was rejected", model::curve_name(k.curve).c_str());

    // write
    // libcrypto's PEM writer takes a partial write as failure: short writes for DER only
    Stream w; w.wstyle = st.is_pem || st.kind == PARAM ? 0 : (int) choose(3, "write style");
    if (mode == 1) { uint32_t room = choose(600, "room"); if (choose(2, "full")) w.cap = room; else w.werr_at = room; }
    bool wrote = write_key(pk, &st, &w);
    ERR_clear_error();
    ev("write %s %s -> %d (%zu bytes)", st.is_pem ? "PEM" : "DER", kind_name[st.kind], wrote, w.out.size());
    if (!wrote)
    {
        SIM_CHECK(w.faulted, "export-failed", "exporting the %s as %s failed although nothing was wrong (%s)", kind_name[st.kind], st.is_pem ? "PEM" : "DER", model::curve_name(k.curve).c_str());
        probe("export failed on full or failing storage");
        // healthy storage now
        Stream w2; bool ok = write_key(pk, &st, &w2); SIM_CHECK(ok, "export-failed", "exporting failed on healthy storage");
        w = w2;
    }
    Bytes der; std::string label; size_t end = w.out.size();
    {
        Quiet q;
        if (st.is_pem)
        {
            SIM_CHECK(unpem(w.out, &label, &der, &end), "wrong-encoding", "exported text is not PEM");
            const char *want = st.kind == PUB ? "PUBLIC KEY" : st.kind == PRIV ? "PRIVATE KEY" : st.kind == ENCRYPTED ? "ENCRYPTED PRIVATE KEY" : nullptr;
            SIM_CHECK(!want || label == want, "wrong-encoding", "PEM label %s", label.c_str());
        }
        else der = w.out;
        Bytes plain = der;
        if (st.kind == ENCRYPTED) SIM_CHECK(open_pbes2(der, st.pw, &plain), "wrong-encoding", "the encrypted key is not PBES2 with the national algorithms: %s", hex(der).c_str());
        Bytes want = st.kind == PUB ? model::spki(k) : st.kind == PARAM ? model::params_der(k) : model::pkcs8(k);
        SIM_CHECK(plain == want, "wrong-encoding", "the %s on %s is exported as %s instead of %s", kind_name[st.kind], model::curve_name(k.curve).c_str(), hex(plain).c_str(), hex(want).c_str());
        probe(st.is_pem ? "PEM written" : "DER written");
    }
    st.bytes = w.out;

    // storage and delivery
    Stream s; s.style = (int) choose(3, "read style"); s.seekable = choose(2, "seekable") != 0;
    const char *what = "intact"; bool must_fail = false, intact = false; Bytes said_der; Bytes pw = st.pw;
    Bytes whole = st.bytes;
    switch (mode)
    {
    case 0: case 1: intact = true; break;
    case 2:
    {
        // the other encodings of the same key, as other software writes them
        Quiet q; intact = true;
        bool expl = k.sbox.empty() && choose(2, "explicit") != 0;
        Bytes d2 = st.kind == PUB ? model::spki(k, expl) : st.kind == PARAM ? model::params_der(k, expl) : model::pkcs8(k, expl);
        if (st.kind == ENCRYPTED) { Bytes dke(model::default_sbox, model::default_sbox + 64); if (choose(2, "dke")) dke = pick_sbox(); d2 = model::pbes2(d2, st.pw, rbytes(1 + choose(40, "salt"), "salt"), 1 + (int) choose(12, "iter"), rbytes(8, "iv"), dke, choose(2, "keylen") != 0); }
        st.bytes = d2;
        if (st.is_pem) { std::string t = pem(d2, label); st.bytes.assign(t.begin(), t.end()); }
        what = expl ? "explicit default table" : "foreign writer"; probe(what);
        break;
    }
    case 3: case 4: // lost tail
    {
        size_t keep = choose((uint32_t) end, "keep");
        if (mode == 3) st.bytes.resize(keep); else s.eof_at = (long) keep;
        must_fail = true; what = "tail lost"; fault(F_TRUNCATE);
        break;
    }
    case 5: s.err_at = (long) choose((uint32_t) end, "error at"); must_fail = true; what = "read error"; break;
    case 6:
        if (st.kind == ENCRYPTED && choose(2, "wrong password"))
        {
            Bytes p2 = pw; if (choose(2, "how") || p2.empty()) p2.push_back('x'); else p2[choose((uint32_t) p2.size(), "at")] ^= 1;
            pw = p2; must_fail = true; what = "wrong password"; fault(F_WRONGPASS);
        }
        else { s.retry_at = (long) choose((uint32_t) end, "would block at"); must_fail = true; what = "would block"; }
        break;
    default:
    {
        uint32_t how = choose(5, "structure");
        if (how == 3 && st.kind == ENCRYPTED) { Quiet q; said_der = odd_pbes2(model::pkcs8(k), st.pw); what = "odd encryption"; fault(F_RESEAL); }
        else if (how == 4) { said_der = der_mangle(der); what = "elements altered"; fault(F_SPLICE); }
        else if (st.kind == ENCRYPTED && choose(2, "inside"))
        {
            Bytes in = alter([&] { Quiet q; return model::pkcs8(k); }(), k, PRIV, &what);
            Quiet q;
            said_der = model::pbes2(in, st.pw, rbytes(8, "salt"), 1 + (int) choose(4, "iter"), rbytes(8, "iv"), Bytes(model::default_sbox, model::default_sbox + 64), true);
        }
        else said_der = alter(der, k, st.kind == ENCRYPTED ? PUB : st.kind, &what);
        if (st.kind == ENCRYPTED && long_derivation(said_der)) discard("iteration count");
        st.bytes = said_der;
        if (st.is_pem) { Quiet q; std::string t = pem(said_der, label); st.bytes.assign(t.begin(), t.end()); }
    }
    }
    s.data = st.bytes;
    long f0 = rng.failed;
    if (choose(10, "poor rng") == 9 && !intact) { rng.fail_at = rng.calls + (long) choose(4, "fail"); rng.fail_for = 1 + choose(3, "for"); }
    rng.budget = rng.calls + 20000;
    set_op(what); set_step_budget(60000000);
    // memory sources see no delivery faults
    bool delivery = s.eof_at >= 0 || s.err_at >= 0 || s.retry_at >= 0;
    if (delivery && (st.kind == PARAM && !st.is_pem)) { s.eof_at = s.err_at = s.retry_at = -1; must_fail = false; intact = true; delivery = false; }
    Stream s0 = s;
    EVP_PKEY *got = read_key(st, &s, pw);
    if (getenv("SIMDBG")) ERR_print_errors_fp(stderr);
    ERR_clear_error();
    set_step_budget(2000000000);
    bool used_mem = s.reads == 0;
    if (delivery && used_mem) { must_fail = false; intact = true; }
    ev("read %s (%s) -> %s", kind_name[st.kind], what, got ? "key" : "refused");
    if (intact)
    {
        SIM_CHECK(got != nullptr || rng.failed != f0, "rejected-valid", "a stored %s (%s, %s, %s) cannot be read back", kind_name[st.kind], st.is_pem ? "PEM" : "DER", what, model::curve_name(k.curve).c_str());
        if (got) check_same(pk, got, st);
        if (got && st.kind != PARAM && choose(2, "other")) check_others(pk, got, k);
        probe("read back intact");
    }
    else if (must_fail)
    {
        SIM_CHECK(got == nullptr, "accepted-damaged", "a %s was read although %s (%s)", kind_name[st.kind], what, st.is_pem ? "PEM" : "DER");
        probe(what);
        // healthy delivery afterwards
        if (!strcmp(what, "wrong password") || delivery)
        {
            rng.fail_at = -1;
            st.bytes = whole; Stream h; h.data = whole; got = read_key(st, &h, st.pw);
            SIM_CHECK(got != nullptr, "rejected-valid", "the %s cannot be read from healthy storage after a failed attempt", kind_name[st.kind]);
            check_same(pk, got, st);
            probe("retry on healthy storage");
        }
    }
    else if (got)
    {
        check_said(got, st, said_der);
        // it must be usable without crashing
        Quiet q;
        BIO *nb = BIO_new(BIO_s_null());
        EVP_PKEY_print_public(nb, got, 0, nullptr); EVP_PKEY_print_params(nb, got, 0, nullptr);
        if (st.kind != PARAM) EVP_PKEY_eq(pk, got);
        EVP_PKEY_parameters_eq(pk, got); EVP_PKEY_bits(got); EVP_PKEY_size(got);
        BIO_free(nb);
        ERR_clear_error();
    }
    else { checked(); probe("altered bytes refused"); }
    Quiet q;
    EVP_PKEY_free(got); EVP_PKEY_free(pk);
}
}
extern const Workload wl_c07 = {"C07", setup, run_c07, 6000, 300000};
