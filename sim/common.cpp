#include "common.h"
#include <openssl/cms.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/hmac.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <openssl/x509.h>
using namespace sim;

Bytes pick_sbox()
{
    Bytes b;
    switch (choose(6, "table"))
    {
    case 0: b = rbytes(64, "sbox"); break;                      // any nibbles
    case 1: b.assign(model::default_sbox, model::default_sbox + 64); b[choose(64, "at")] ^= (unsigned char) (1 << choose(8, "bit")); break;
    case 2: b = Bytes(64, 0); break;
    case 3: b.assign(model::default_sbox, model::default_sbox + 64); break;
    case 4: b = Bytes(64, 0xff); break;
    default: b = rbytes(64, "sbox");
    }
    return b;
}

Bytes pick_key()
{
    switch (choose(6, "key")) { case 1: return Bytes(32, 0); case 2: return Bytes(32, 0xff); default: return rbytes(32, "key"); }
}

void pick_rng_faults()
{
    rng.seed = 1 + choose(1u << 30, "rng");
    switch (choose(6, "rng mode"))
    {
    case 1: rng.fail_at = (long) choose(12, "fail at"); rng.fail_for = 1 + (long) choose(5, "for"); break;
    case 2: rng.fail_at = 0; rng.fail_for = 1L << 40; rng.fill_on_fail = choose(2, "fill") != 0; break;
    case 3: rng.odd = 1 + (int) choose(4, "odd"); rng.odd_at = (long) choose(8, "odd at"); rng.odd_for = 1 + (long) choose(40, "odd for"); break;
    default: break;
    }
}

uint32_t pick_style()
{
    static const uint32_t styles[12] = {2, 3, 4, 10, 11, 12, 5, 6, 7, 13, 14, 15};
    uint32_t s = styles[choose(12, "style")]; return choose(2, "meet") ? s + 16 : s;
}

BIGNUM *pick_scalar(const BIGNUM *n)
{
    BIGNUM *d = BN_new();
    uint32_t k = choose(10, "scalar");
    if (k == 1) BN_one(d);
    else if (k == 2) { BN_copy(d, n); BN_sub_word(d, 1); }
    else if (k == 3) BN_set_word(d, 2 + choose(250, "small"));
    else if (k == 4) { BN_rshift(d, n, 8 + (int) choose(20, "shift")); }
    else
    {
        Bytes b = rbytes(BN_num_bytes(n) + 8, "scalar");
        BN_bin2bn(b.data(), (int) b.size(), d);
        BN_CTX *c = BN_CTX_new(); BN_nnmod(d, d, n, c); BN_CTX_free(c);
    }
    if (BN_is_zero(d) || BN_cmp(d, n) >= 0) BN_one(d);
    return d;
}

void make_key(model::Key *k, int from, int upto)
{
    int c = from + (int) choose((uint32_t) (upto - from), "curve");
    bool le = choose(2, "big endian") == 0;
    Bytes sb;
    if (choose(3, "key table") == 2) sb = pick_sbox();
    if (sb.size() == 64 && !memcmp(sb.data(), model::default_sbox, 64)) sb.clear();
    Quiet q;
    BIGNUM *d = pick_scalar(model::curves[c].order);
    k->set(c, le, sb, d);
    for (;;)    // a public point with x = 1 may have the encoding of x = 0: leave such keys out
    {
        bool zero = true; for (auto x : model::compress(k->g(), k->q)) if (x) zero = false;
        if (!zero) break;
        BN_one(d);
        k->set(c, le, sb, d);
    }
    BN_free(d);
}

// fills libcrypto's own caches (nothing of the library under test is used)
void warm_libcrypto()
{
    RAND_set_rand_method(&rand_meth);
    EVP_PKEY *pk = EVP_PKEY_new(), *b; EC_KEY *ec = EC_KEY_new_by_curve_name(NID_X9_62_prime256v1); EC_KEY_generate_key(ec); EVP_PKEY_assign_EC_KEY(pk, ec);
    unsigned char *o = nullptr; int n = i2d_PUBKEY(pk, &o); const unsigned char *p = o;
    b = d2i_PUBKEY(nullptr, &p, n); EVP_PKEY_free(b); OPENSSL_free(o);
    BIO *io = BIO_new(BIO_s_mem());
    EVP_PKEY_print_private(io, pk, 0, nullptr); EVP_PKEY_print_public(io, pk, 0, nullptr); EVP_PKEY_print_params(io, pk, 0, nullptr); BIO_reset(io);
    PEM_write_bio_PKCS8PrivateKey(io, pk, EVP_aes_128_cbc(), (char *) "pw", 2, nullptr, nullptr); b = PEM_read_bio_PrivateKey(io, nullptr, nullptr, (void *) "pw"); EVP_PKEY_free(b); BIO_reset(io);
    PEM_write_bio_PUBKEY(io, pk); b = PEM_read_bio_PUBKEY(io, nullptr, nullptr, nullptr); EVP_PKEY_free(b); BIO_reset(io);
    PKCS8_PRIV_KEY_INFO *i8 = EVP_PKEY2PKCS8(pk); b = EVP_PKCS82PKEY(i8); EVP_PKEY_free(b); PKCS8_PRIV_KEY_INFO_free(i8);
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 1000); X509_set_pubkey(x, pk);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char *) "x", -1, -1, 0); X509_set_issuer_name(x, X509_get_subject_name(x)); X509_sign(x, pk, EVP_sha256());
    BIO *in = BIO_new_mem_buf("abc", 3); CMS_ContentInfo *c = CMS_sign(x, pk, nullptr, in, CMS_BINARY); BIO_free(in);
    if (c) { CMS_verify(c, nullptr, nullptr, nullptr, io, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY); o = nullptr; n = i2d_CMS_ContentInfo(c, &o); p = o; CMS_ContentInfo *d = d2i_CMS_ContentInfo(nullptr, &p, n); CMS_ContentInfo_free(d); OPENSSL_free(o); }
    CMS_ContentInfo_free(c);
    in = BIO_new_mem_buf("abc", 3); PKCS7 *p7 = PKCS7_sign(x, pk, nullptr, in, PKCS7_BINARY); BIO_free(in);
    if (p7) PKCS7_verify(p7, nullptr, nullptr, nullptr, io, PKCS7_BINARY | PKCS7_NOVERIFY);
    PKCS7_free(p7);
    PKCS12 *p12 = PKCS12_create("pw", "n", pk, x, nullptr, NID_aes_128_cbc, NID_aes_128_cbc, 2, 2, 0);
    if (p12) { EVP_PKEY *k2 = nullptr; X509 *x2 = nullptr; PKCS12_parse(p12, "pw", &k2, &x2, nullptr); EVP_PKEY_free(k2); X509_free(x2); PKCS12_verify_mac(p12, "no", 2); }
    PKCS12_free(p12);
    unsigned char h[64]; unsigned hn;
    for (const EVP_MD *m : {EVP_sha1(), EVP_sha256(), EVP_md5()}) { HMAC(m, "k", 1, (const unsigned char *) "abc", 3, h, &hn); PKCS5_PBKDF2_HMAC("p", 1, (const unsigned char *) "s", 1, 1, m, 20, h); EVP_Digest("abc", 3, h, &hn, m, nullptr); }
    EVP_PKEY_CTX *kc = EVP_PKEY_CTX_new(pk, nullptr); EVP_PKEY_sign_init(kc); size_t l = sizeof h; EVP_PKEY_sign(kc, h, &l, h, 32); EVP_PKEY_CTX_free(kc);
    EVP_MD_CTX *mc = EVP_MD_CTX_new(); l = sizeof h; EVP_DigestSignInit(mc, nullptr, EVP_sha256(), nullptr, pk); EVP_DigestSign(mc, nullptr, &l, h, 3); EVP_MD_CTX_free(mc);
    BIO_free(io); X509_free(x); EVP_PKEY_free(pk);
    ERR_clear_error();
    RAND_set_rand_method(nullptr);
}

void leak_check(const std::function<void()> &op, const char *what)
{
    LiveMark m = live_mark();
    op();
    ERR_clear_error();
    checked();
    if (!live_since(m, nullptr)) return;
    // caches filled on first use are not leaks: only what stays behind again and again is
    op(); ERR_clear_error();
    std::string d; size_t n = 0;
    for (int i = 0; i < 2; i++)
    {
        d.clear(); alloc_sites(true); m = live_mark(); size_t had = live_total();
        op(); ERR_clear_error();
        alloc_sites(false);
        n = owned_leaks(m, &d);
        if (!n || live_total() <= had) return;            // something kept may be replaced by something newer
    }
    violate("leak", "%zu blocks stay behind after %s: %s", n, what, d.c_str());
}

bool parse_nodes(const unsigned char *p, const unsigned char *e, std::vector<Node> *out)
{
    while (p < e)
    {
        model::Der d; if (!model::der_next(p, e, &d)) return false;
        Node n; n.tag = d.tag;
        if (d.tag & 0x20) { n.cons = true; if (!parse_nodes(d.p, d.p + d.len, &n.sub)) return false; }
        else n.val.assign(d.p, d.p + d.len);
        out->push_back(n);
    }
    return true;
}
Bytes put_nodes(const std::vector<Node> &v)
{
    Bytes o;
    for (auto &n : v) { Bytes x = model::tlv(n.tag, n.cons ? put_nodes(n.sub) : n.val); o.insert(o.end(), x.begin(), x.end()); }
    return o;
}
namespace {
void flat(std::vector<Node> &v, std::vector<std::pair<std::vector<Node> *, size_t>> *out)
{
    for (size_t i = 0; i < v.size(); i++) { out->push_back({&v, i}); if (v[i].cons) flat(v[i].sub, out); }
}
}
Bytes der_mangle(const Bytes &der)
{
    std::vector<Node> root;
    if (!parse_nodes(der.data(), der.data() + der.size(), &root)) return der;
    uint32_t n = 1 + choose(2, "changes");
    while (n--)
    {
        std::vector<std::pair<std::vector<Node> *, size_t>> all; flat(root, &all);
        if (all.size() < 2) break;
        auto at = all[1 + choose((uint32_t) all.size() - 1, "element")]; Node &x = (*at.first)[at.second];
        switch (choose(8, "change"))
        {
        case 0: at.first->erase(at.first->begin() + (long) at.second); break;
        case 1: { Node c = x; at.first->insert(at.first->begin() + (long) at.second, c); break; }
        case 2: if (at.first->size() > 1) std::swap(x, (*at.first)[choose((uint32_t) at.first->size(), "with")]); break;
        case 3: { static const unsigned char tags[] = {1, 2, 3, 4, 5, 6, 0x0c, 0x30, 0x31, 0xa0, 0x80}; unsigned t = tags[choose(sizeof tags, "tag")]; if (x.cons && !(t & 0x20)) { x.val = put_nodes(x.sub); x.cons = false; } else if (!x.cons && (t & 0x20)) { x.cons = true; x.sub.clear(); } x.tag = t; break; }
        default:
            if (x.cons) { x.sub.clear(); break; }
            switch (choose(7, "value"))
            {
            case 0: x.val.clear(); break;
            case 1: x.val.assign(x.val.size(), 0); break;
            case 2: x.val.assign(x.val.size(), 0xff); break;
            case 3: x.val = rbytes(1 + choose(100, "size"), "junk"); break;
            case 4: { static const long odd[] = {0, 1, 2, 255, 256, 661, 1000, 65535, 2147483647L, 2147483648L, 4294967295L, 4294967296L + 163}; Bytes i = model::integer(odd[choose(12, "odd")]); x.val.assign(i.begin() + 2, i.end()); break; }
            case 5: if (!x.val.empty()) x.val[choose((uint32_t) x.val.size(), "at")] ^= (unsigned char) (1 << choose(8, "bit")); break;
            default: x.val.insert(x.val.begin(), (unsigned char) choose(256, "byte"));
            }
        }
    }
    return put_nodes(root);
}

bool long_derivation(const Bytes &d)
{
    static const unsigned char kdf[] = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x05, 0x0c};
    for (size_t i = 0; i + sizeof kdf < d.size(); i++)
    {
        if (memcmp(&d[i], kdf, sizeof kdf)) continue;
        const unsigned char *p = &d[i] + sizeof kdf, *e = d.data() + d.size(); model::Der s, x;
        if (!model::der_next(p, e, &s)) continue;
        p = s.p; e = s.p + s.len;
        if (!model::der_next(p, e, &x) || !model::der_next(p, e, &x)) continue;
        unsigned long v = 0; for (size_t j = 0; j < x.len && j < 8; j++) v = v << 8 | x.p[j];
        if (v > 3000) return true;
    }
    return false;
}

Bytes odd_pbes2(const Bytes &plain, const Bytes &pass)
{
    using namespace model;
    Bytes salt = rbytes(8, "salt"), iv = rbytes(8, "iv"), dke(default_sbox, default_sbox + 64); int iter = 1 + (int) choose(4, "iterations");
    Bytes key = pbkdf2(pass, salt, iter, 32), data = octets(cfb(key.data(), dke.data(), iv.data(), plain, true));
    Bytes prf = seq({oid(OID_HMAC), null()}), iters = integer(iter), len, sal = octets(salt), kpar, par = seq({octets(iv), octets(dke)}), kdf, enc;
    static const char *others[] = {"1.2.840.113549.2.9", "1.2.804.2.1.1.1.1.1.1.3", "2.16.840.1.101.3.4.1.2", "1.2.3.4", "1.2.840.113549.1.5.12", "1.2.804.2.1.1.1.1.2.1", "1.2.804.2.1.1.1.1.3.1.1"};
    std::string c = OID_CFB, k = OID_PBKDF2, h = OID_HMAC; bool no_kpar = false;
    switch (choose(16, "what is odd"))
    {
    case 0: par.clear(); break;                                            // no parameters
    case 1: par = null(); break;
    case 2: par = octets(iv); break;
    case 3: par = integer(5); break;
    case 4: par = seq({octets(iv)}); break;
    case 5: par = seq({octets(rbytes(choose(40, "iv size"), "iv")), octets(dke)}); break;
    case 6: par = seq({octets(iv), octets(rbytes(choose(80, "table size"), "table"))}); break;
    case 7: par = seq({octets(dke), octets(iv)}); break;
    case 8: par = seq({choose(2, "which") ? bits(iv) : integer(1), octets(dke)}); break;
    case 9: { uint32_t n = choose(100, "size"); par = tlv(0x30, rbytes(n, "junk")); break; }
    case 10: no_kpar = true; break;
    case 11: prf = choose(2, "which") ? seq({oid(others[choose(7, "other")])}) : Bytes(); break;
    case 12: len = integer(choose(2, "odd") ? 31 : (long) choose(200, "key length")); break;
    case 13: sal = choose(2, "which") ? octets({}) : seq({oid("1.2.3")}); break;
    case 14: c = others[choose(7, "other")]; break;
    default: if (choose(2, "which")) k = others[choose(7, "other")]; else iters = integer(choose(2, "zero") ? 0 : -1);
    }
    kpar = no_kpar ? Bytes() : seq({sal, iters, len, prf});
    kdf = seq({oid(k.c_str()), kpar}); enc = seq({oid(c.c_str()), par});
    return seq({seq({oid(OID_PBES2), choose(20, "nothing") == 19 ? Bytes() : seq({kdf, enc})}), data});
}
