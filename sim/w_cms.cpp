// C14: signed messages (CMS and PKCS#7) over streams and storage that fail, cut and alter.
#include "sim.h"
#include "model.h"
#include "common.h"
#include <openssl/pem.h>
#include <openssl/cms.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/pkcs7.h>
#include <openssl/sha.h>
using namespace sim;

namespace {
int nid_le, nid_be;
const EVP_MD *md;
Bytes fixture, fixture_digest;

void setup()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    nid_le = OBJ_txt2nid(model::OID_LE); nid_be = OBJ_txt2nid(model::OID_BE);
    md = ENGINE_get_digest(sut::e, OBJ_txt2nid(model::OID_HASH));
    if (!md || !nid_le || !nid_be) { fprintf(stderr, "engine lacks algorithms\n"); _exit(77); }
    if (FILE *f = fopen(REPO_TESTS "/cms.pem", "rb")) { unsigned char b[65536]; size_t n = fread(b, 1, sizeof b, f); fixture.assign(b, b + n); fclose(f); }
}

const char *OID_SIGNED = "1.2.840.113549.1.7.2", *A_TYPE = "1.2.840.113549.1.9.3", *A_TIME = "1.2.840.113549.1.9.5", *A_DIGEST = "1.2.840.113549.1.9.4";
const unsigned char *table(const model::Key &k) { return k.sbox.empty() ? model::default_sbox : k.sbox.data(); }

struct Signer { model::Key k; Bytes cert, skid; long serial = 0; std::string cn; X509 *x = nullptr; EVP_PKEY *pk = nullptr; };

void new_signer(Signer *s, const Signer *like = nullptr)
{
    switch (choose(4, "curve class")) { case 0: case 1: make_key(&s->k, 0, 4); break; case 2: make_key(&s->k, model::first_custom, model::first_tiny); break; default: make_key(&s->k, 4, 10); }
    Quiet q;
    s->serial = like ? like->serial : 1 + (long) choose(100000, "serial"); s->cn = like ? like->cn : "signer " + std::to_string(choose(100, "name"));
    s->skid = like ? like->skid : rbytes(20, "key id");
    BIGNUM *e = BN_new(); BN_set_word(e, 1000003 + choose(1000000, "nonce"));
    s->cert = model::cert(s->k, s->k, s->serial, s->cn.c_str(), 0xc000, e, s->skid); BN_free(e);
    const unsigned char *p = s->cert.data(); s->x = d2i_X509(nullptr, &p, (long) s->cert.size());
    s->pk = model::import_priv(s->k);
    SIM_CHECK(s->x && s->pk, "setup", "a certificate or key cannot be read");
}

Bytes model_sig(const model::Key &k, const Bytes &h)
{
    BIGNUM *r = BN_new(), *s = BN_new(), *e = BN_new(); BN_set_word(e, 12345 + choose(1u << 30, "nonce")); BN_lshift(e, e, 60); BN_add_word(e, 3);
    BN_CTX *c = BN_CTX_new(); BN_nnmod(e, e, model::curves[k.curve].order, c); BN_CTX_free(c);
    model::sign(k, h, e, r, s);
    Bytes o = model::octets(model::sig_raw(k.g(), r, s, k.le)); BN_free(r); BN_free(s); BN_free(e);
    return o;
}
bool model_check(const model::Key &k, const Bytes &h, const Bytes &sig)
{
    int ob = model::obytes(k.g()); const unsigned char *p = sig.data(); model::Der d;
    if (!model::der_next(p, sig.data() + sig.size(), &d) || d.tag != 4 || p != sig.data() + sig.size() || (int) d.len != 2 * ob) return false;
    Bytes raw(d.p, d.p + d.len); if (k.le) raw = model::rev(raw);
    BIGNUM *s = BN_bin2bn(raw.data(), ob, nullptr), *r = BN_bin2bn(raw.data() + ob, ob, nullptr); bool ok = model::verify(k.g(), k.q, h, r, s);
    BN_free(s); BN_free(r);
    return ok;
}

struct Msg
{
    bool pkcs7 = false, detached = false, attrs = true, certs = true, keyid = false, by_model = false;
    Bytes content, der; std::vector<const Signer *> signers;
};

Bytes model_msg(const Msg &m)
{
    const Signer &s = *m.signers[0];
    Bytes name = model::seq({model::setv({model::seq({model::oid("2.5.4.3"), model::utf8(s.cn.c_str())})})}), dalg = model::seq({model::oid(model::OID_HASH), choose(2, "null") ? model::null() : Bytes()});
    Bytes sid = m.keyid ? model::tlv(0x80, s.skid) : model::seq({name, model::integer(s.serial)}), attrs, sig, dg = model::hash(m.content);
    if (m.attrs)
    {
        std::vector<Bytes> v = {model::seq({model::oid(A_TYPE), model::setv({model::oid(model::OID_DATA)})}), model::seq({model::oid(A_TIME), model::setv({model::tlv(0x17, model::str("230101000000Z"))})}), model::seq({model::oid(A_DIGEST), model::setv({model::octets(dg)})})};
        Bytes body; for (auto &x : v) body.insert(body.end(), x.begin(), x.end());
        sig = model_sig(s.k, model::hash(model::tlv(0x31, body), table(s.k)));
        attrs = model::tlv(0xa0, body);
    }
    else sig = model_sig(s.k, dg);
    Bytes si = model::seq({model::integer(m.keyid ? 3 : 1), sid, dalg, attrs, model::seq({model::oid(s.k.le ? model::OID_LE : model::OID_BE), choose(2, "null") ? model::null() : Bytes()}), model::octets(sig)});
    Bytes sd = model::seq({model::integer(m.keyid ? 3 : 1), model::setv({dalg}), model::seq({model::oid(model::OID_DATA), m.detached ? Bytes() : model::tlv(0xa0, model::octets(m.content))}), m.certs ? model::tlv(0xa0, s.cert) : Bytes(), model::setv({si})});
    return model::seq({model::oid(OID_SIGNED), model::tlv(0xa0, sd)});
}

// ---- the parts of a message
struct Parts { std::vector<Node> root; Node *encap = nullptr, *content = nullptr, *certs = nullptr, *infos = nullptr; };
bool take_apart(const Bytes &der, Parts *p)
{
    if (!parse_nodes(der.data(), der.data() + der.size(), &p->root) || p->root.size() != 1 || p->root[0].sub.size() != 2 || p->root[0].sub[1].sub.size() != 1) return false;
    Node &sd = p->root[0].sub[1].sub[0];
    if (sd.sub.size() < 4 || sd.sub[2].sub.empty()) return false;
    p->encap = &sd.sub[2];
    if (p->encap->sub.size() > 1 && p->encap->sub[1].sub.size() == 1) p->content = &p->encap->sub[1].sub[0];
    for (size_t i = 3; i < sd.sub.size(); i++) { if (sd.sub[i].tag == 0xa0) p->certs = &sd.sub[i]; if (sd.sub[i].tag == 0x31) p->infos = &sd.sub[i]; }
    return p->infos != nullptr;
}
struct Info { Node *sid, *dalg, *attrs, *salg, *sig; };
bool take_info(Node &n, Info *i)
{
    if (n.sub.size() < 5) return false;
    i->sid = &n.sub[1]; i->dalg = &n.sub[2]; size_t k = 3; i->attrs = nullptr;
    if (n.sub[k].tag == 0xa0) i->attrs = &n.sub[k++];
    if (n.sub.size() < k + 2) return false;
    i->salg = &n.sub[k]; i->sig = &n.sub[k + 1];
    return i->sig->tag == 4;
}

// what the library made, examined independently
void check_made(const Msg &m)
{
    Quiet q; Parts p; model::Der d; (void) d;
    SIM_CHECK(take_apart(m.der, &p), "malformed", "a signed message is not well formed: %s", hex(m.der).c_str());
    SIM_CHECK(m.detached == !p.content, "malformed", "content is %s", p.content ? "present" : "absent");
    if (p.content) SIM_CHECK(p.content->tag == 4 && p.content->val == m.content, "wrong-content", "the message holds other content than was given: %s instead of %s", hex(p.content->val).c_str(), hex(m.content).c_str());
    SIM_CHECK(p.infos->sub.size() == m.signers.size(), "malformed", "%zu signers instead of %zu", p.infos->sub.size(), m.signers.size());
    std::vector<bool> used(m.signers.size());
    for (auto &n : p.infos->sub)
    {
        Info i; SIM_CHECK(take_info(n, &i), "malformed", "a signer description is not well formed: %s", hex(m.der).c_str());
        SIM_CHECK((i.attrs != nullptr) == m.attrs, "malformed", "signed attributes are %s", i.attrs ? "present" : "absent");
        SIM_CHECK(i.dalg->sub.size() && i.dalg->sub[0].tag == 6 && put_nodes({i.dalg->sub[0]}) == model::oid(model::OID_HASH), "wrong-algorithm", "the digest algorithm is not GOST 34.311");
        bool found = false;
        for (size_t s = 0; s < m.signers.size() && !found; s++)
        {
            if (used[s]) continue;
            const model::Key &k = m.signers[s]->k; Bytes h = model::hash(m.content);
            if (i.attrs)
            {
                bool has = false; for (auto &a : i.attrs->sub) if (a.sub.size() == 2 && put_nodes({a.sub[0]}) == model::oid(A_DIGEST)) has = a.sub[1].sub.size() == 1 && a.sub[1].sub[0].val == h;
                SIM_CHECK(has, "wrong-digest", "the digest attribute is not the digest of the content");
                h = model::hash(model::tlv(0x31, put_nodes(i.attrs->sub)), table(k));
            }
            if (model_check(k, h, i.sig->val)) { found = used[s] = true; SIM_CHECK(i.salg->sub.size() && put_nodes({i.salg->sub[0]}) == model::oid(k.le ? model::OID_LE : model::OID_BE), "wrong-algorithm", "the signature algorithm is not the key's"); }
        }
        SIM_CHECK(found, "invalid-signature", "a signature in the message is by none of the signers: %s", hex(m.der).c_str());
    }
    probe("message confirmed by the model");
}

// ---- the library signs
bool lib_sign(Msg *m, Stream *in)
{
    BIO *b = new_bio(in); unsigned char *o = nullptr; int n = 0;
    unsigned fl = CMS_BINARY | (m->detached ? CMS_DETACHED : 0) | (m->attrs ? 0 : CMS_NOATTR) | (m->certs ? 0 : CMS_NOCERTS) | (choose(2, "caps") ? CMS_NOSMIMECAP : 0);
    bool partial = m->signers.size() > 1 || choose(2, "partial"), named = choose(2, "digest named") != 0;
    if (!m->pkcs7)
    {
        if (m->keyid) fl |= CMS_USE_KEYID;
        CMS_ContentInfo *c = nullptr; bool ok = true;
        if (!partial) c = CMS_sign(m->signers[0]->x, m->signers[0]->pk, nullptr, b, fl);
        else
        {
            c = CMS_sign(nullptr, nullptr, nullptr, nullptr, fl | CMS_PARTIAL);
            for (auto s : m->signers) ok = ok && c && CMS_add1_signer(c, s->x, s->pk, named ? md : nullptr, fl) != nullptr;
            ok = ok && c && CMS_final(c, b, nullptr, fl) == 1;
        }
        if (c && ok) n = i2d_CMS_ContentInfo(c, &o);
        CMS_ContentInfo_free(c);
    }
    else
    {
        PKCS7 *c = nullptr; bool ok = true;
        if (!partial) c = PKCS7_sign(m->signers[0]->x, m->signers[0]->pk, nullptr, b, (int) fl);
        else
        {
            c = PKCS7_sign(nullptr, nullptr, nullptr, nullptr, (int) fl | PKCS7_PARTIAL);
            for (auto s : m->signers) ok = ok && c && PKCS7_sign_add_signer(c, s->x, s->pk, named ? md : nullptr, (int) fl) != nullptr;
            ok = ok && c && PKCS7_final(c, b, (int) fl) == 1;
        }
        if (c && ok) n = i2d_PKCS7(c, &o);
        PKCS7_free(c);
    }
    BIO_free(b);
    if (n > 0) m->der.assign(o, o + n); else m->der.clear();
    OPENSSL_free(o);
    return n > 0;
}

struct Check { bool parsed = false, ok = false, out_ok = true; Bytes out; };
// reads a stored message through a stream and verifies it
Check lib_verify(bool pkcs7, const Bytes &stored, bool is_pem, Stream *st, const Bytes *detached, Stream *ds, const std::vector<X509 *> &extra, bool nointern)
{
    Check r; st->data = stored; if (!is_pem) st->first = 8;
    BIO *b = new_bio(st), *out; { Quiet q; out = BIO_new(BIO_s_mem()); }
    STACK_OF(X509) *certs = nullptr; { Quiet q; if (!extra.empty()) { certs = sk_X509_new_null(); for (auto x : extra) sk_X509_push(certs, x); } }
    if (detached) ds->data = *detached;
    BIO *db = detached ? new_bio(ds) : nullptr;
    if (!pkcs7)
    {
        CMS_ContentInfo *c = is_pem ? PEM_read_bio_CMS(b, nullptr, nullptr, nullptr) : d2i_CMS_bio(b, nullptr);
        r.parsed = c != nullptr;
        if (c) r.ok = CMS_verify(c, certs, nullptr, db, out, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY | (nointern ? CMS_NOINTERN : 0)) == 1;
        CMS_ContentInfo_free(c);
    }
    else
    {
        PKCS7 *c = is_pem ? PEM_read_bio_PKCS7(b, nullptr, nullptr, nullptr) : d2i_PKCS7_bio(b, nullptr);
        r.parsed = c != nullptr;
        if (c) r.ok = PKCS7_verify(c, certs, nullptr, db, out, PKCS7_BINARY | PKCS7_NOVERIFY | (nointern ? PKCS7_NOINTERN : 0)) == 1;
        PKCS7_free(c);
    }
    { Quiet q; char *p; long n = BIO_get_mem_data(out, &p); if (n > 0) r.out.assign(p, p + n); BIO_free(out); sk_X509_free(certs); }
    BIO_free(db); BIO_free(b);
    ERR_clear_error();
    return r;
}

Bytes to_pem(const Bytes &der, bool pkcs7)
{
    Quiet q; BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio(b, pkcs7 ? "PKCS7" : "CMS", "", der.data(), (long) der.size()); char *p; long n = BIO_get_mem_data(b, &p); Bytes o(p, p + n); BIO_free(b); return o;
}

Bytes content(const char *l)
{
    switch (choose(6, l)) { case 0: return rbytes(1 + choose(40, "n"), "content"); case 1: return rbytes(32 * (1 + choose(10, "n")), "content"); case 2: return rbytes(1 + choose(9000, "n"), "content"); case 3: return Bytes(1 + choose(300, "n"), (unsigned char) choose(256, "byte")); case 4: { Bytes b = rbytes(1 + choose(400, "n"), "content"); for (auto &c : b) if (c % 5 == 0) c = c & 1 ? '\r' : '\n'; return b; } default: return rbytes(4096 * (1 + choose(2, "n")), "content"); }
}

// an alteration that must make verification fail; nullptr: not applicable
const char *tamper(Msg *m, Bytes *detached, const Msg &other, const Signer &impostor, std::vector<X509 *> *extra)
{
    Quiet q; Parts p; if (!take_apart(m->der, &p) || p.infos->sub.empty()) return nullptr;
    Node &n = p.infos->sub[choose((uint32_t) p.infos->sub.size(), "signer")]; Info i; if (!take_info(n, &i)) return nullptr;
    Bytes *c = p.content ? &p.content->val : detached; const char *what = nullptr;
    auto bit = [&](Bytes &b) { b[choose((uint32_t) b.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit")); };
    switch (choose(15, "tampering"))
    {
    case 0: if (c->empty()) return nullptr; bit(*c); what = "content altered"; fault(F_BITFLIP); break;
    case 1: if (c->empty()) return nullptr; c->resize(choose((uint32_t) c->size(), "keep")); what = "content cut"; fault(F_TRUNCATE); break;
    case 2: c->push_back((unsigned char) choose(256, "byte")); what = "content extended"; fault(F_SPLICE); break;
    case 3: if (other.content == m->content) return nullptr; *c = other.content; what = "content of another message"; fault(F_SPLICE); break;
    case 4: bit(i.sig->val); what = "signature altered"; fault(F_BITFLIP); break;
    case 5: { if (choose(2, "cut")) { if (i.sig->val.size() < 2) return nullptr; i.sig->val.resize(choose((uint32_t) i.sig->val.size(), "keep")); fault(F_TRUNCATE); } else { i.sig->val.assign(i.sig->val.size(), (unsigned char) (choose(2, "v") ? 0xff : 0)); fault(F_OVERWRITE); } what = "signature cut or blanked"; break; }
    case 6: // signature by somebody else
    {
        Bytes h = model::hash(*c); if (i.attrs) h = model::hash(model::tlv(0x31, put_nodes(i.attrs->sub)), table(impostor.k));
        i.sig->val = model_sig(impostor.k, h); what = "signature by another key"; fault(F_SPLICE); break;
    }
    case 7: case 8: // attributes
    {
        if (!i.attrs || i.attrs->sub.empty()) return nullptr;
        Node &a = i.attrs->sub[choose((uint32_t) i.attrs->sub.size(), "attribute")];
        switch (choose(5, "attribute change"))
        {
        case 0: { Node *x = &a; while (x->cons && !x->sub.empty()) x = &x->sub[x->sub.size() - 1]; if (x->val.empty()) return nullptr; bit(x->val); what = "attribute altered"; fault(F_BITFLIP); break; }
        case 1: i.attrs->sub.erase(i.attrs->sub.begin() + (&a - i.attrs->sub.data())); what = "attribute removed"; fault(F_TRUNCATE); break;
        case 2: { Node x; parse_nodes(nullptr, nullptr, &i.attrs->sub); Bytes t = model::seq({model::oid("1.2.3.4"), model::setv({model::null()})}); std::vector<Node> v; parse_nodes(t.data(), t.data() + t.size(), &v); i.attrs->sub.push_back(v[0]); what = "attribute added"; fault(F_SPLICE); break; }
        case 3: // digest attribute follows altered content
        {
            if (c->empty()) return nullptr; bit(*c); Bytes h = model::hash(*c);
            for (auto &x : i.attrs->sub) if (x.sub.size() == 2 && put_nodes({x.sub[0]}) == model::oid(A_DIGEST) && x.sub[1].sub.size() == 1) x.sub[1].sub[0].val = h;
            what = "content and its digest altered"; fault(F_OVERWRITE); break;
        }
        default: n.sub.erase(n.sub.begin() + 3); what = "all attributes removed"; fault(F_TRUNCATE); break;
        }
        break;
    }
    case 9: // another certificate under the same name
        if (impostor.serial != m->signers[0]->serial || p.infos->sub.size() > 1) return nullptr;
        if (p.certs) { std::vector<Node> v; parse_nodes(impostor.cert.data(), impostor.cert.data() + impostor.cert.size(), &v); p.certs->sub = v; }
        else { extra->clear(); extra->push_back(impostor.x); }
        what = "certificate replaced"; fault(F_SPLICE); break;
    case 10: { Node *x = i.sid; if (x->cons) { x = &x->sub[x->sub.size() - 1]; } if (x->val.empty()) return nullptr; bit(x->val); what = "signer name altered"; fault(F_BITFLIP); break; }
    case 11: p.infos->sub.clear(); what = "signers removed"; fault(F_TRUNCATE); break;
    case 12: { static const char *o[] = {"2.16.840.1.101.3.4.2.1", "1.3.14.3.2.26"}; Bytes t = model::oid(o[choose(2, "digest")]); i.dalg->sub[0].val.assign(t.begin() + 2, t.end()); what = "digest algorithm replaced"; fault(F_OVERWRITE); break; }
    case 13: // the signer's statement about another message
    {
        Parts p2; if (other.content == m->content || !take_apart(other.der, &p2) || p2.infos->sub.empty()) return nullptr;
        p.infos->sub = p2.infos->sub; what = "signers of another message"; fault(F_SPLICE); break;
    }
    default: // signature of another message only
    {
        Parts p2; Info i2; if (other.content == m->content || !take_apart(other.der, &p2) || p2.infos->sub.empty() || !take_info(p2.infos->sub[0], &i2)) return nullptr;
        i.sig->val = i2.sig->val; what = "signature of another message"; fault(F_SPLICE); break;
    }
    }
    m->der = put_nodes(p.root);
    return what;
}

void pick_msg(Msg *m, std::vector<Signer> &ss)
{
    m->pkcs7 = choose(2, "pkcs7") != 0; m->detached = choose(2, "detached") != 0; m->attrs = choose(3, "no attributes") != 2; m->certs = choose(3, "no certificates") != 2; m->keyid = !m->pkcs7 && choose(3, "key id") == 2;
    m->content = content("content");
    m->signers = {&ss[0]};
    if (ss.size() > 1) m->signers.push_back(&ss[1]);
    // libcrypto verifies PKCS#7 attributes without asking the key: a table of the key's own is not known to it
    if (m->pkcs7 && m->attrs) for (auto s : m->signers) if (!s->k.sbox.empty()) m->pkcs7 = false;
}
std::vector<X509 *> needed(const Msg &m) { std::vector<X509 *> v; if (!m.certs) for (auto s : m.signers) v.push_back(s->x); return v; }

void deliver(Stream *s) { s->style = (int) choose(3, "delivery"); }

void from_fixture()
{
    if (fixture.empty()) discard("no fixture");
    Quiet *q = new Quiet; BIO *b = BIO_new_mem_buf(fixture.data(), (int) fixture.size()); char *nm, *hd; unsigned char *d; long n; SIM_CHECK(PEM_read_bio(b, &nm, &hd, &d, &n) == 1, "setup", "fixture"); Bytes der(d, d + n); OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d); BIO_free(b);
    Parts p; SIM_CHECK(take_apart(der, &p) && p.content, "setup", "fixture"); Bytes want = p.content->val; delete q;
    bool pem = choose(2, "pem") != 0, bad = choose(2, "altered") != 0, must = false; Stream s; deliver(&s);
    if (bad)
    {
        Info i; take_info(p.infos->sub[0], &i);
        switch (choose(4, "how"))
        {
        case 0: p.content->val[choose((uint32_t) p.content->val.size(), "at")] ^= 1; must = true; break;
        case 1: { Bytes &v = i.sig->val; v[choose((uint32_t) v.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit")); must = true; break; }
        case 2: if (i.attrs) { Node *x = &i.attrs->sub[choose((uint32_t) i.attrs->sub.size(), "attribute")]; while (x->cons) x = &x->sub.back(); x->val.back() ^= 1; must = true; } break;
        default: break;
        }
        der = put_nodes(p.root);
        if (!must) der[choose((uint32_t) der.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit"));
        fault(F_BITFLIP);
    }
    Check c = lib_verify(false, pem ? to_pem(der, false) : der, pem, &s, nullptr, nullptr, {}, false);
    if (!bad) SIM_CHECK(c.ok, "rejected-valid", "a genuine message made by another program is refused");
    SIM_CHECK(!must || !c.ok, "accepted-invalid", "an altered message made by another program is accepted");
    if (c.ok) SIM_CHECK(c.out == want, "wrong-content", "a message made by another program verifies with other content");
    probe(bad ? "altered message of another program" : "message of another program");
}

void run()
{
    set_op("a signed message"); set_step_budget(2000000000);
    uint32_t mode = strat(8, "mode");
    rng.seed = 1 + choose(1u << 30, "rng");
    if (mode == 7 && choose(3, "fixture") == 0) { from_fixture(); return; }
    std::vector<Signer> ss(1 + (choose(4, "two signers") == 3)); for (auto &s : ss) new_signer(&s);
    if (ss.size() == 2 && ss[0].serial == ss[1].serial && ss[0].cn == ss[1].cn) discard("same name twice");
    Msg m; pick_msg(&m, ss);
    m.by_model = ss.size() == 1 && choose(3, "by model") == 2;
    Stream in; in.data = m.content; deliver(&in);
    // ---- signing
    if (m.by_model) { Quiet q; m.der = model_msg(m); probe("message made by the model"); }
    else
    {
        uint32_t f = mode == 1 ? 1 + choose(6, "signing fault") : 0; size_t cl = m.content.size(); bool wrong = false; long failed0 = rng.failed;
        Signer imp;
        switch (f)
        {
        case 1: in.err_at = (long) choose((uint32_t) cl + 1, "error at"); break;
        case 2: in.eof_at = (long) choose((uint32_t) cl + 1, "end at"); break;
        case 3: in.retry_at = (long) choose((uint32_t) cl + 1, "would block at"); in.retry_once = choose(2, "once") != 0; break;
        case 4: pick_rng_faults(); break;
        case 5: rng.fail_at = rng.calls + (long) choose(4, "fail at"); rng.fail_for = 1 + (long) choose(3, "for"); break;
        case 6: new_signer(&imp, &ss[0]); if (BN_cmp(imp.k.d, ss[0].k.d)) { Quiet q; std::swap(imp.pk, ss[0].pk); wrong = true; } break;
        default: break;
        }
        rng.budget = rng.calls + 20000;
        bool ok = false; leak_check([&] { Stream s2 = in; ok = lib_sign(&m, &s2); }, "signing a message");
        ERR_clear_error();
        ev("signed %zu bytes: %d", cl, ok);
        if (wrong) { SIM_CHECK(!ok, "wrong-key-used", "a message was signed although key and certificate do not belong together"); if (!ok) probe("key and certificate do not match"); return; }
        if (!ok) { SIM_CHECK(f, "sign-failed", "signing fails although nothing is wrong"); SIM_CHECK(f >= 1, "sign-failed", "signing fails"); probe("signing failed cleanly"); (void) failed0; return; }
        if (f >= 1 && f <= 3)
        {
            // libcrypto takes a failing stream for a finished one: the message is about what was delivered
            size_t lim = f == 1 ? (size_t) in.err_at : f == 2 ? (size_t) in.eof_at : (size_t) in.retry_at;
            if (m.content.size() > lim) m.content.resize(lim);
            probe("signed what a failing stream delivered");
        }
        check_made(m);
        rng.fail_at = -1; rng.odd = 0;
    }
    // ---- storage, piecewise round trip
    Msg orig = m; bool pem = choose(2, "pem") != 0; std::vector<X509 *> extra = needed(m);
    Stream st; deliver(&st); Stream ds; deliver(&ds); Bytes det = m.content;
    bool nointern = !m.certs && choose(2, "nointern");
    {
        Check c; leak_check([&] { Stream a = st, b = ds; c = lib_verify(m.pkcs7, pem ? to_pem(m.der, m.pkcs7) : m.der, pem, &a, m.detached ? &det : nullptr, &b, extra, nointern); }, "verifying a message");
        SIM_CHECK(c.parsed && c.ok, "rejected-valid", "a genuine %s message (%s, %s, %zu bytes, key on %s, made by the %s) is refused", m.pkcs7 ? "PKCS#7" : "CMS", m.detached ? "detached" : "with content", m.attrs ? "attributes" : "no attributes", m.content.size(), model::curve_name(m.signers[0]->k.curve).c_str(), m.by_model ? "model" : "library");
        SIM_CHECK(c.out == m.content, "wrong-content", "verification returns %zu bytes that are not the content of %zu bytes", c.out.size(), m.content.size());
        probe(m.pkcs7 ? "PKCS#7 verified" : "CMS verified"); probe(m.detached ? "detached content" : "embedded content"); if (m.signers.size() > 1) probe("two signers"); if (!m.attrs) probe("no attributes"); if (m.keyid) probe("signer by key id");
        // read again with the other parser: both understand SignedData
        if (choose(4, "other parser") == 3 && !m.keyid) { bool p7 = !m.pkcs7; for (auto s : m.signers) if (!s->k.sbox.empty() && m.attrs) p7 = m.pkcs7; Stream a = st, b = ds; c = lib_verify(p7, m.der, false, &a, m.detached ? &det : nullptr, &b, extra, nointern); SIM_CHECK(c.ok && c.out == m.content, "rejected-valid", "a genuine message is refused when read as %s", p7 ? "PKCS#7" : "CMS"); }
    }
    if (mode <= 1) return;
    // ---- faults
    Signer imp; new_signer(&imp, &ss[0]);
    if (imp.k.curve == ss[0].k.curve && !BN_cmp(imp.k.d, ss[0].k.d)) discard("same key twice");
    Msg other; { Quiet q; other.signers = {&ss[0]}; other.attrs = m.attrs; other.keyid = m.keyid; other.content = rbytes(1 + choose(60, "n"), "other"); other.der = model_msg(other); }
    for (uint32_t t = 0, nt = 1 + choose(3, "attempts"); t < nt; t++)
    {
        Msg a = orig; Bytes ad = det; std::vector<X509 *> ax = extra; const char *what = nullptr; bool must = false; Stream s1; deliver(&s1); Stream s2; deliver(&s2);
        Bytes stored;
        if (mode <= 5)
        {
            what = tamper(&a, &ad, other, imp, &ax); must = true;
            if (!what) continue;
            stored = pem ? to_pem(a.der, a.pkcs7) : a.der;
            if (a.der == orig.der && ad == det && ax == extra) continue;
        }
        else if (mode == 6)
        {
            stored = pem ? to_pem(a.der, a.pkcs7) : a.der;
            switch (choose(7, "storage fault"))
            {
            case 0: stored.resize(choose((uint32_t) stored.size() - (pem ? 4 : 0), "keep")); what = "message cut"; must = true; fault(F_TRUNCATE); break;
            case 1: stored[choose((uint32_t) stored.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit")); what = "bit flipped"; fault(F_BITFLIP); break;
            case 2: { size_t at = choose((uint32_t) stored.size(), "from"), n = 1 + choose(60, "n"); Bytes r = rbytes(n, "junk"); for (size_t i = 0; i < n && at + i < stored.size(); i++) stored[at + i] = r[i]; what = "overwritten"; fault(F_OVERWRITE); break; }
            case 3: { size_t at = choose((uint32_t) stored.size(), "from"); for (size_t i = at; i < stored.size(); i++) stored[i] = 0; what = "torn"; fault(F_TRUNCATE); break; }
            case 4: s1.err_at = (long) choose((uint32_t) stored.size() - (pem ? 4 : 0), "error at"); must = true; what = "read error"; break;
            case 5: if (!m.detached) continue; s2.err_at = (long) choose((uint32_t) ad.size() + 1, "error at"); if (s2.err_at < (long) ad.size()) must = true; what = "content read error"; break;
            default: if (!m.detached) continue; s2.eof_at = (long) choose((uint32_t) ad.size() + 1, "end at"); if (s2.eof_at < (long) ad.size()) must = true; what = "content ends early";
            }
        }
        else
        {
            // a well-nested message with some elements exchanged
            { Bytes d = der_mangle(a.der); if (d == a.der) continue; stored = pem ? to_pem(d, a.pkcs7) : d; }
            what = "elements exchanged"; fault(F_OVERWRITE);
        }
        Check c; leak_check([&] { Stream x = s1, y = s2; c = lib_verify(a.pkcs7, stored, pem, &x, a.detached ? &ad : nullptr, &y, ax, nointern); }, what);
        ev("%s: parsed %d accepted %d", what, c.parsed, c.ok);
        SIM_CHECK(!must || !c.ok, "accepted-invalid", "a %s message is accepted: %s", a.pkcs7 ? "PKCS#7" : "CMS", what);
        if (c.ok) SIM_CHECK(c.out == orig.content || a.detached, "wrong-content", "a damaged message (%s) verifies with other content", what);
        probe(what); if (c.ok) probe("damage outside what is signed");
    }
    // and the original still verifies
    Check c = lib_verify(orig.pkcs7, orig.der, false, &st, orig.detached ? &det : nullptr, &ds, extra, nointern);
    SIM_CHECK(c.ok && c.out == orig.content, "rejected-valid", "a genuine message is refused after damaged ones");
}
}
extern const Workload wl_c14 = {"C14", setup, run, 4000, 200000};
