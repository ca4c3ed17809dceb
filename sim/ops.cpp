// Operations shared by several workloads.
#include "sim.h"
#include "model.h"
#include "common.h"
#include "ops.h"
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/hmac.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <openssl/x509.h>
#include <openssl/cms.h>
#include <openssl/pkcs7.h>
using namespace sim;

namespace ops {
long at = -1; bool persist, fired; long seen; bool plain;
int nid_le, nid_be;
const EVP_CIPHER *cfb;
const EVP_MD *md;
std::vector<std::function<void()>> drops;
void drop_all() { Quiet q; for (auto &f : drops) f(); drops.clear(); }
const char *names[] = {"key generation", "signing", "verification", "streamed signing", "streamed verification", "hashing", "encryption", "exporting a public key", "exporting a private key", "exporting parameters", "importing a public key", "importing a private key", "importing parameters", "key encryption", "HMAC or key derivation", "comparison", "printing", "taking a certificate's key", "signing a message", "verifying a message", "copying a context"};
bool attach(ENGINE *e)
{
    nid_le = OBJ_txt2nid(model::OID_LE); nid_be = OBJ_txt2nid(model::OID_BE);
    cfb = ENGINE_get_cipher(e, OBJ_txt2nid(model::OID_CFB));
    md = ENGINE_get_digest(e, OBJ_txt2nid(model::OID_HASH));
    return cfb && md && nid_le && nid_be;
}

namespace {
const int CTRL_SBOX = 0x1001, CTRL_CURVE = 0x1002;
// the failure to inject into the operation; -1: none, counting
void arm() { if (plain) return; if (at < 0) count_allocs(); else arm_alloc(at, persist); }
void off() { if (plain) return; if (at < 0) seen = alloc_seen(); else if (disarm_alloc()) fired = true; }
struct Armed { Armed() { arm(); } ~Armed() { off(); } };

}
const unsigned char *table(const model::Key &k) { return k.sbox.empty() ? model::default_sbox : k.sbox.data(); }
Bytes full_table(const Bytes &s) { return s.empty() ? Bytes(model::default_sbox, model::default_sbox + 64) : s; }

void check_sig(const model::Key &k, const Bytes &digest, const unsigned char *sig, size_t n)
{
    Quiet q;
    int ob = model::obytes(k.g()); const unsigned char *p = sig; model::Der d;
    SIM_CHECK(model::der_next(p, sig + n, &d) && d.tag == 4 && p == sig + n && (int) d.len == 2 * ob, "wrong-result", "a malformed signature was returned: %s", hex(sig, n).c_str());
    Bytes raw(d.p, d.p + d.len); if (k.le) raw = model::rev(raw);
    BIGNUM *s = BN_bin2bn(raw.data(), ob, nullptr), *r = BN_bin2bn(raw.data() + ob, ob, nullptr);
    SIM_CHECK(model::verify(k.g(), k.q, digest, r, s), "wrong-result", "an invalid signature was returned");
    BN_free(s); BN_free(r);
}
Bytes make_sig(const model::Key &k, const Bytes &digest)
{
    Quiet q; BIGNUM *r = BN_new(), *s = BN_new(), *e = BN_new(); BN_set_word(e, 1000003); BN_lshift(e, e, 90); BN_add_word(e, 77);
    BN_CTX *c = BN_CTX_new(); BN_nnmod(e, e, model::curves[k.curve].order, c); BN_CTX_free(c);
    model::sign(k, digest, e, r, s);
    Bytes o = model::octets(model::sig_raw(k.g(), r, s, k.le)); BN_free(r); BN_free(s); BN_free(e);
    return o;
}

namespace {
Op op_keygen(const model::Key &k)
{
    // settings by number or by name
    uint32_t cset = choose(3, "set curve"), sset = choose(3, "set table"); bool by_keygen_into = choose(4, "into") == 3;
    int want_curve = cset == 0 ? 6 : k.curve;
    if (cset == 2 && model::curves[k.curve].named < 0) cset = 1;
    Bytes sb = sset ? pick_sbox() : Bytes();
    return [=] {
        EVP_PKEY *pk = nullptr; int ok = 0;
        if (by_keygen_into) { Quiet q; pk = EVP_PKEY_new(); }
        {
            Armed a;
            EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(k.le ? nid_le : nid_be, nullptr);
            ok = c && EVP_PKEY_keygen_init(c) == 1;
            if (ok && cset == 1) ok = EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, (void *) k.g()) > 0;
            if (ok && cset == 2) ok = EVP_PKEY_CTX_ctrl_str(c, "curve", ("uacurve" + std::to_string(model::curves[k.curve].named)).c_str()) > 0;
            if (ok && sset == 1) ok = EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, (void *) sb.data()) > 0;
            if (ok && sset == 2) ok = EVP_PKEY_CTX_ctrl_str(c, "sbox", hex(sb).c_str()) > 0;
            if (ok) ok = EVP_PKEY_keygen(c, &pk) == 1;
            EVP_PKEY_CTX_free(c);
        }
        if (ok)
        {
            Quiet q; model::Key got; Bytes p8 = model::export_priv(pk), pub = model::export_pub(pk);
            SIM_CHECK(!p8.empty() && model::read_pkcs8(p8, &got), "wrong-result", "a generated key cannot be exported");
            SIM_CHECK(got.curve == want_curve && got.le == k.le && full_table(got.sbox) == full_table(sb), "wrong-result", "a key was generated with other parameters than asked for");
            SIM_CHECK(!BN_is_zero(got.d) && BN_cmp(got.d, model::curves[got.curve].order) < 0 && pub == model::spki(got), "wrong-result", "an unsound key was generated");
            got.clear();
        }
        EVP_PKEY_free(pk);
        return ok;
    };
}

Op op_sign(const model::Key &k, EVP_PKEY *pk)
{
    Bytes d = rbytes(32, "digest"); bool size_first = choose(3, "ask size") == 2;
    return [=] {
        int ok; unsigned char o[400]; size_t l = sizeof o, l0 = 0;
        {
            Armed a;
            EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk, nullptr);
            ok = c && EVP_PKEY_sign_init(c) == 1 && (!size_first || EVP_PKEY_sign(c, nullptr, &l0, d.data(), d.size()) == 1) && EVP_PKEY_sign(c, o, &l, d.data(), d.size()) == 1;
            EVP_PKEY_CTX_free(c);
        }
        if (ok) { SIM_CHECK(l <= sizeof o && (!size_first || l0 >= l), "wrong-result", "announced signature size %zu, actual %zu", l0, l); check_sig(k, d, o, l); }
        return ok;
    };
}

Op op_verify(const model::Key &k, EVP_PKEY *pub)
{
    Bytes d = rbytes(32, "digest"), s = make_sig(k, d); bool valid = choose(3, "altered") != 2;
    if (!valid) { if (choose(2, "what")) d[choose(32, "at")] ^= 1; else s[3 + choose((uint32_t) s.size() - 3, "at")] ^= 1 << choose(8, "bit"); }
    if (!valid) { Quiet q; int ob = model::obytes(k.g()); Bytes raw(s.end() - 2 * ob, s.end()); if (k.le) raw = model::rev(raw); BIGNUM *x = BN_bin2bn(raw.data(), ob, nullptr), *y = BN_bin2bn(raw.data() + ob, ob, nullptr); if (model::verify(k.g(), k.q, d, y, x)) discard("altered signature is valid"); BN_free(x); BN_free(y); }
    return [=] {
        int ok, rc = 0;
        {
            Armed a;
            EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pub, nullptr);
            ok = c && EVP_PKEY_verify_init(c) == 1;
            if (ok) rc = EVP_PKEY_verify(c, s.data(), s.size(), d.data(), d.size());
            EVP_PKEY_CTX_free(c);
        }
        SIM_CHECK(valid || rc != 1, "wrong-result", "an invalid signature was accepted");
        return ok && (valid ? rc == 1 : 1);
    };
}

Op op_digest_sign(const model::Key &k, EVP_PKEY *pk)
{
    Bytes m = rbytes(1 + choose(100, "n"), "message"), dg; { Quiet q; dg = model::hash(m, table(k)); } size_t cut = choose((uint32_t) m.size() + 1, "cut"); bool copy = choose(3, "copy") == 2;
    return [=] {
        int ok; unsigned char o[400]; size_t l = sizeof o;
        {
            Armed a;
            EVP_MD_CTX *c = EVP_MD_CTX_new();
            ok = c && EVP_DigestSignInit(c, nullptr, md, nullptr, pk) == 1 && EVP_DigestSignUpdate(c, m.data(), cut) == 1;
            if (ok && copy) { EVP_MD_CTX *d = EVP_MD_CTX_new(); ok = d && EVP_MD_CTX_copy_ex(d, c) == 1; EVP_MD_CTX_free(c); c = d; }
            ok = ok && EVP_DigestSignUpdate(c, m.data() + cut, m.size() - cut) == 1 && EVP_DigestSignFinal(c, o, &l) == 1;
            EVP_MD_CTX_free(c);
        }
        if (ok) check_sig(k, dg, o, l);
        return ok;
    };
}

Op op_digest_verify(const model::Key &k, EVP_PKEY *pub)
{
    Bytes m = rbytes(1 + choose(100, "n"), "message"), s; { Quiet q; s = make_sig(k, model::hash(m, table(k))); } bool valid = choose(3, "altered") != 2, copy = choose(3, "copy") == 2; size_t cut = choose((uint32_t) m.size() + 1, "cut");
    if (!valid) m.push_back(0);
    return [=] {
        int ok, rc = 0;
        {
            Armed a;
            EVP_MD_CTX *c = EVP_MD_CTX_new();
            ok = c && EVP_DigestVerifyInit(c, nullptr, md, nullptr, pub) == 1 && EVP_DigestVerifyUpdate(c, m.data(), cut) == 1;
            if (ok && copy) { EVP_MD_CTX *d = EVP_MD_CTX_new(); ok = d && EVP_MD_CTX_copy_ex(d, c) == 1; EVP_MD_CTX_free(c); c = d; }
            ok = ok && EVP_DigestVerifyUpdate(c, m.data() + cut, m.size() - cut) == 1;
            if (ok) rc = EVP_DigestVerifyFinal(c, s.data(), s.size());
            EVP_MD_CTX_free(c);
        }
        SIM_CHECK(valid || rc != 1, "wrong-result", "a signature over another message was accepted");
        return ok && (valid ? rc == 1 : 1);
    };
}

Op op_hash()
{
    Bytes m = rbytes(rsize(200, "n"), "message"), sb = choose(2, "table") ? pick_sbox() : Bytes(), want; { Quiet q; want = model::hash(m, full_table(sb).data()); } size_t cut = choose((uint32_t) m.size() + 1, "cut");
    return [=] {
        int ok, ok2; unsigned char o[64], o2[64]; unsigned n = 0, n2 = 0;
        {
            Armed a;
            EVP_MD_CTX *c = EVP_MD_CTX_new(), *d = EVP_MD_CTX_new();
            ok = c && EVP_DigestInit_ex(c, md, nullptr) == 1 && (sb.empty() || EVP_MD_CTX_ctrl(c, CTRL_SBOX, 64, (void *) sb.data()) == 1) && EVP_DigestUpdate(c, m.data(), cut) == 1;
            ok2 = ok && d && EVP_MD_CTX_copy_ex(d, c) == 1;
            ok = ok && EVP_DigestUpdate(c, m.data() + cut, m.size() - cut) == 1 && EVP_DigestFinal_ex(c, o, &n) == 1;
            ok2 = ok2 && EVP_DigestUpdate(d, m.data() + cut, m.size() - cut) == 1 && EVP_DigestFinal_ex(d, o2, &n2) == 1;
            EVP_MD_CTX_free(c); EVP_MD_CTX_free(d);
        }
        SIM_CHECK(!ok || (n == 32 && !memcmp(o, want.data(), 32)), "wrong-result", "a wrong digest was returned");
        SIM_CHECK(!ok2 || (n2 == 32 && !memcmp(o2, want.data(), 32)), "wrong-result", "a copied context returned a wrong digest");
        return ok && ok2;
    };
}

Op op_cipher()
{
    Bytes m = rbytes(1 + rsize(100, "n"), "text"), key = rbytes(32, "key"), iv = rbytes(8, "iv"), sb = choose(2, "table") ? pick_sbox() : Bytes(), want; { Quiet q; want = model::cfb(key.data(), full_table(sb).data(), iv.data(), m, true); }
    size_t cut = m.size() > 1 ? 1 + choose((uint32_t) m.size() - 1, "cut") : 0;
    if (!cut) { m.push_back(7); Quiet q; want = model::cfb(key.data(), full_table(sb).data(), iv.data(), m, true); cut = 1; }
    return [=] {
        int ok, ok2, n = 0; Bytes o(m.size() + 8), o2(m.size() + 8), o3(m.size() + 8); int ok3;
        {
            Armed a;
            EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(), *d = EVP_CIPHER_CTX_new(), *r = EVP_CIPHER_CTX_new();
            ok = c && EVP_EncryptInit_ex(c, cfb, nullptr, key.data(), iv.data()) == 1 && (sb.empty() || EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX, 64, (void *) sb.data()) == 1) && EVP_EncryptUpdate(c, o.data(), &n, m.data(), (int) cut) == 1;
            ok2 = ok && d && EVP_CIPHER_CTX_copy(d, c) == 1;
            ok = ok && EVP_EncryptUpdate(c, o.data() + cut, &n, m.data() + cut, (int) (m.size() - cut)) == 1;
            ok2 = ok2 && EVP_EncryptUpdate(d, o2.data() + cut, &n, m.data() + cut, (int) (m.size() - cut)) == 1;
            ASN1_TYPE *t = ASN1_TYPE_new();
            ok3 = ok && t && EVP_CIPHER_param_to_asn1(c, t) > 0 && r && EVP_DecryptInit_ex(r, cfb, nullptr, key.data(), nullptr) == 1 && EVP_CIPHER_asn1_to_param(r, t) > 0 && EVP_DecryptUpdate(r, o3.data(), &n, o.data(), (int) m.size()) == 1;
            ASN1_TYPE_free(t);
            EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d); EVP_CIPHER_CTX_free(r);
        }
        SIM_CHECK(!ok || !memcmp(o.data(), want.data(), m.size()), "wrong-result", "wrong output of the cipher");
        SIM_CHECK(!ok2 || !memcmp(o2.data() + cut, want.data() + cut, m.size() - cut), "wrong-result", "wrong output of a copied cipher context");
        SIM_CHECK(!ok3 || !memcmp(o3.data(), m.data(), m.size()), "wrong-result", "decryption under exported parameters is wrong");
        return ok && ok2 && ok3;
    };
}

Op op_export(const model::Key &k, EVP_PKEY *pk, uint32_t what)
{
    Bytes want; { Quiet q; want = what == 0 ? model::spki(k) : what == 1 ? model::pkcs8(k) : model::params_der(k); }
    bool pem = choose(3, "pem") == 2;
    return [=] {
        unsigned char *o = nullptr; int n = 0, ok; Bytes got;
        if (pem && what < 2)
        {
            BIO *b; { Quiet q; b = BIO_new(BIO_s_mem()); }
            { Armed a; ok = (what == 0 ? PEM_write_bio_PUBKEY(b, pk) : PEM_write_bio_PKCS8PrivateKey(b, pk, nullptr, nullptr, 0, nullptr, nullptr)) == 1; }
            Quiet q;
            if (ok) { char *nm = nullptr, *hd = nullptr; unsigned char *d = nullptr; long l = 0; SIM_CHECK(PEM_read_bio(b, &nm, &hd, &d, &l) == 1, "wrong-result", "unreadable PEM was written"); got.assign(d, d + l); OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d); }
            BIO_free(b);
        }
        else
        {
            {
                Armed a;
                if (what == 0) n = i2d_PUBKEY(pk, &o);
                else if (what == 1) { PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(pk); n = i ? i2d_PKCS8_PRIV_KEY_INFO(i, &o) : 0; PKCS8_PRIV_KEY_INFO_free(i); }
                else n = i2d_KeyParams(pk, &o);
            }
            ok = n > 0;
            if (ok) got.assign(o, o + n);
            OPENSSL_free(o);
        }
        SIM_CHECK(!ok || got == want, "wrong-result", "a wrong encoding was exported: %s instead of %s", hex(got).c_str(), hex(want).c_str());
        return ok;
    };
}

Op op_import(const model::Key &k, uint32_t what)
{
    Bytes der; { Quiet q; der = what == 0 ? model::spki(k) : what == 1 ? model::pkcs8(k) : model::params_der(k); }
    return [=] {
        EVP_PKEY *pk = nullptr; const unsigned char *p = der.data();
        {
            Armed a;
            if (what == 0) pk = d2i_PUBKEY(nullptr, &p, (long) der.size());
            else if (what == 1) { PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long) der.size()); if (i) pk = EVP_PKCS82PKEY(i); PKCS8_PRIV_KEY_INFO_free(i); }
            else pk = d2i_KeyParams(k.le ? nid_le : nid_be, nullptr, &p, (long) der.size());
        }
        if (pk)
        {
            Quiet q; Bytes back;
            if (what == 0) back = model::export_pub(pk); else if (what == 1) back = model::export_priv(pk); else { unsigned char *o = nullptr; int n = i2d_KeyParams(pk, &o); if (n > 0) back.assign(o, o + n); OPENSSL_free(o); }
            SIM_CHECK(back == der, "wrong-result", "the imported key is not the one given: %s instead of %s", hex(back).c_str(), hex(der).c_str());
            if (what == 1) SIM_CHECK(model::export_pub(pk) == model::spki(k), "wrong-result", "the imported key has a wrong public part");
        }
        EVP_PKEY_free(pk);
        return pk != nullptr;
    };
}

Op op_encrypted(const model::Key &k, EVP_PKEY *pk)
{
    Bytes pw = rbytes(8, "password"), want; for (auto &c : pw) c = (unsigned char) (33 + c % 90); int iter = 1 + (int) choose(4, "iterations"); { Quiet q; want = model::pkcs8(k); }
    return [=] {
        X509_SIG *s = nullptr; PKCS8_PRIV_KEY_INFO *back = nullptr; int ok;
        {
            Armed a;
            PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(pk);
            X509_ALGOR *pbe = i ? PKCS5_pbe2_set_iv(cfb, iter, nullptr, 0, nullptr, -1) : nullptr;
            s = pbe ? PKCS8_set0_pbe((const char *) pw.data(), (int) pw.size(), i, pbe) : nullptr;
            if (!s) X509_ALGOR_free(pbe);
            PKCS8_PRIV_KEY_INFO_free(i);
            if (s) back = PKCS8_decrypt(s, (const char *) pw.data(), (int) pw.size());
        }
        ok = back != nullptr;
        if (ok) { Quiet q; unsigned char *o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(back, &o); SIM_CHECK(n == (int) want.size() && !memcmp(o, want.data(), want.size()), "wrong-result", "a key encrypted and decrypted again is another one: %s instead of %s", hex(o, n > 0 ? n : 0).c_str(), hex(want).c_str()); OPENSSL_free(o); }
        X509_SIG_free(s); PKCS8_PRIV_KEY_INFO_free(back);
        return ok;
    };
}

Op op_mac()
{
    Bytes key = rbytes(1 + choose(80, "k"), "key"), m = rbytes(choose(100, "n"), "message"), want; uint32_t how = choose(3, "how"); { Quiet q; want = how == 2 ? model::pbkdf2(key, m, 2, 40) : model::hmac(key, m); }
    return [=] {
        int ok; unsigned char o[64]; unsigned n = 0;
        {
            Armed a;
            if (how == 0) ok = HMAC(md, key.data(), (int) key.size(), m.data(), m.size(), o, &n) != nullptr;
            else if (how == 1) { HMAC_CTX *c = HMAC_CTX_new(); ok = c && HMAC_Init_ex(c, key.data(), (int) key.size(), md, nullptr) == 1 && HMAC_Update(c, m.data(), m.size()) == 1 && HMAC_Final(c, o, &n) == 1; HMAC_CTX_free(c); }
            else ok = PKCS5_PBKDF2_HMAC((const char *) key.data(), (int) key.size(), m.data(), (int) m.size(), 2, md, 40, o) == 1;
        }
        SIM_CHECK(!ok || !memcmp(o, want.data(), how == 2 ? 40 : 32), "wrong-result", "a wrong %s was returned", how == 2 ? "derived key" : "HMAC");
        return ok;
    };
}

Op op_compare(const model::Key &k, EVP_PKEY *pk)
{
    // the same key again, or one that differs in one respect
    model::Key o = k; uint32_t diff = choose(5, "difference"); EVP_PKEY *b; bool same = false, same_par = true;
    {
        Quiet q;
        if (diff == 1) { o = model::Key(); BIGNUM *d = BN_dup(k.d); BN_add_word(d, 1); if (BN_cmp(d, model::curves[k.curve].order) >= 0) BN_one(d); o.set(k.curve, k.le, k.sbox, d); BN_free(d); if (BN_is_one(k.d) && BN_is_one(o.d)) same = true; }
        else if (diff == 2) { o.sbox = full_table(k.sbox); o.sbox[5] ^= 0x30; same_par = false; }
        else if (diff == 3) { o = model::Key(); BIGNUM *one = BN_new(); BN_set_word(one, 12345); o.set(k.curve == 1 ? 2 : 1, k.le, k.sbox, one); BN_free(one); same_par = false; }
        else same = true;
        b = choose(2, "public only") ? model::import_pub(o) : model::import_priv(o);
        SIM_CHECK(b, "setup", "a key cannot be imported");
        drops.push_back([=]() mutable { EVP_PKEY_free(b); if (diff == 1 || diff == 3) o.clear(); });
    }
    bool params = choose(3, "parameters only") == 2;
    return [=] {
        int r; { Armed a; r = params ? EVP_PKEY_parameters_eq(pk, b) : EVP_PKEY_eq(pk, b); }
        bool eq = params ? same_par : same;
        SIM_CHECK(eq || r != 1, "wrong-result", "different keys compare equal");
        SIM_CHECK(!eq || r != 0, "wrong-result", "equal keys compare as different when memory runs out");
        return eq ? r == 1 : r == 0;
    };
}

Op op_print(EVP_PKEY *pk)
{
    uint32_t what = choose(3, "what"); auto print = [=](BIO *b) { return what == 0 ? EVP_PKEY_print_public(b, pk, 2, nullptr) : what == 1 ? EVP_PKEY_print_private(b, pk, 2, nullptr) : EVP_PKEY_print_params(b, pk, 2, nullptr); };
    std::string want; { Quiet q; BIO *b = BIO_new(BIO_s_mem()); SIM_CHECK(print(b) == 1, "print-failed", "a key cannot be printed"); char *p; long n = BIO_get_mem_data(b, &p); want.assign(p, n); BIO_free(b); }
    return [=] {
        BIO *b; { Quiet q; b = BIO_new(BIO_s_mem()); }
        int ok; { Armed a; ok = print(b) == 1; }
        { Quiet q; char *p; long n = BIO_get_mem_data(b, &p); std::string got(p, n); if (ok && got != want) probe("libcrypto printed something else"); }
        BIO_free(b);
        return ok;
    };
}

// a certificate: taking its key, signing with it, verifying with it
Op op_x509(const model::Key &k, EVP_PKEY *pk, uint32_t what)
{
    Bytes cert, msg, content = rbytes(1 + choose(100, "n"), "content"); unsigned fl = CMS_BINARY | CMS_NOSMIMECAP | (choose(3, "attributes") == 2 ? CMS_NOATTR : 0); X509 *x; bool p7 = choose(3, "pkcs7") == 2, valid = choose(3, "altered") != 2; size_t len = 0;
    if (p7 && !k.sbox.empty()) p7 = false;
    {
        Quiet q; BIGNUM *e = BN_new(); BN_set_word(e, 99991); cert = model::cert(k, k, 5, "name", 0xc0, e, {}); BN_free(e);
        const unsigned char *p = cert.data(); x = d2i_X509(nullptr, &p, (long) cert.size()); SIM_CHECK(x, "setup", "a certificate cannot be read");
        drops.push_back([=] { X509_free(x); });
    }
    auto do_sign = [=](BIO *in, bool armed) {
        Bytes r; unsigned char *o = nullptr; int n = 0; PKCS7 *c7 = nullptr; CMS_ContentInfo *c = nullptr;
        if (armed) arm();
        if (p7) c7 = PKCS7_sign(x, pk, nullptr, in, (int) fl); else c = CMS_sign(x, pk, nullptr, in, fl);
        if (armed) off();
        // libcrypto's encoder writes nonsense without memory, so it gets some
        { Quiet q; if (c7) n = i2d_PKCS7(c7, &o); if (c) n = i2d_CMS_ContentInfo(c, &o); }
        PKCS7_free(c7); CMS_ContentInfo_free(c);
        if (n > 0) r.assign(o, o + n);
        OPENSSL_free(o);
        return r;
    };
    auto verify = [=](const Bytes &m, Bytes *got) {
        const unsigned char *p = m.data(); int r = 0; BIO *out = BIO_new(BIO_s_mem());
        if (p7) { PKCS7 *c = d2i_PKCS7(nullptr, &p, (long) m.size()); r = c && out ? PKCS7_verify(c, nullptr, nullptr, nullptr, out, PKCS7_BINARY | PKCS7_NOVERIFY) : 0; PKCS7_free(c); }
        else { CMS_ContentInfo *c = d2i_CMS_ContentInfo(nullptr, &p, (long) m.size()); r = c && out ? CMS_verify(c, nullptr, nullptr, nullptr, out, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY) : 0; CMS_ContentInfo_free(c); }
        if (out) { char *q; long n = BIO_get_mem_data(out, &q); if (n > 0) got->assign(q, q + n); }
        BIO_free(out);
        return r == 1;
    };
    { Quiet q; BIO *in = BIO_new_mem_buf(content.data(), (int) content.size()); msg = do_sign(in, false); BIO_free(in); Bytes got; SIM_CHECK(!msg.empty() && verify(msg, &got) && got == content, "failed", "a message cannot be signed and verified"); len = msg.size(); }
    if (!valid) { size_t n = msg.size(); msg[n - 1 - choose(8, "at")] ^= 1 << choose(8, "bit"); }
    return [=]() -> int {
        if (what == 0)
        {
            EVP_PKEY *got = nullptr; X509 *y; const unsigned char *p = cert.data();
            { Armed a; y = d2i_X509(nullptr, &p, (long) cert.size()); got = y ? X509_get_pubkey(y) : nullptr; }
            if (got) { Quiet q; SIM_CHECK(model::export_pub(got) == model::spki(k), "wrong-result", "a certificate yields another key"); }
            EVP_PKEY_free(got); X509_free(y);
            return got != nullptr;
        }
        if (what == 1)
        {
            BIO *in; { Quiet q; in = BIO_new_mem_buf(content.data(), (int) content.size()); }
            Bytes m = do_sign(in, true);
            BIO_free(in);
            if (!m.empty()) { Quiet q; Bytes got; SIM_CHECK(m.size() == len || !alloc_only_engine(), "wrong-result", "a signed message lacks a part: %s", hex(m).c_str()); SIM_CHECK((verify(m, &got) && got == content) || !alloc_only_engine(), "wrong-result", "a signed message does not verify"); }
            return !m.empty();
        }
        Bytes got; bool r; { Armed a; r = verify(msg, &got); }
        SIM_CHECK(valid || !r, "wrong-result", "a message with a false signature was accepted");
        SIM_CHECK(!r || got == content, "wrong-result", "a message verifies with other content");
        return valid ? r : 1;
    };
}

Op op_dup(const model::Key &k, EVP_PKEY *pk)
{
    Bytes sb = choose(2, "table") ? pick_sbox() : Bytes(); bool curve = choose(2, "curve") != 0;
    EVP_PKEY_CTX *c; { Quiet q; c = EVP_PKEY_CTX_new_id(k.le ? nid_le : nid_be, nullptr); EVP_PKEY_keygen_init(c); if (curve) EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, (void *) k.g()); if (!sb.empty()) EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, sb.data()); EVP_PKEY_sign_init(c); drops.push_back([=] { EVP_PKEY_CTX_free(c); }); }
    (void) pk;
    return [=] {
        EVP_PKEY_CTX *d; { Armed a; d = EVP_PKEY_CTX_dup(c); }
        if (d)
        {
            Quiet q; EVP_PKEY *n = nullptr; model::Key got;
            SIM_CHECK(EVP_PKEY_keygen_init(d) == 1 && EVP_PKEY_keygen(d, &n) == 1, "wrong-result", "a copied context cannot generate");
            SIM_CHECK(model::read_pkcs8(model::export_priv(n), &got) && got.curve == (curve ? k.curve : 6) && full_table(got.sbox) == full_table(sb), "wrong-result", "a copied context lost its settings");
            EVP_PKEY_free(n); EVP_PKEY_CTX_free(d); got.clear();
        }
        return d != nullptr;
    };
}

}
Op make(uint32_t which, const model::Key &k, EVP_PKEY *pk, EVP_PKEY *pub)
{
    Op op;
    switch (which)
    {
    case 0: op = op_keygen(k); break; case 1: op = op_sign(k, pk); break; case 2: op = op_verify(k, pub); break; case 3: op = op_digest_sign(k, pk); break; case 4: op = op_digest_verify(k, pub); break;
    case 5: op = op_hash(); break; case 6: op = op_cipher(); break; case 7: case 8: case 9: op = op_export(k, pk, which - 7); break; case 10: case 11: case 12: op = op_import(k, which - 10); break;
    case 13: op = op_encrypted(k, pk); break; case 14: op = op_mac(); break; case 15: op = op_compare(k, pk); break; case 16: op = op_print(pk); break; case 17: op = op_x509(k, pk, 0); break; case 18: op = op_x509(k, pk, 1); break; case 19: op = op_x509(k, pk, 2); break;
    default: op = op_dup(k, pk);
    }
    return op;
}
}
