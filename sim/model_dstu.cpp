// DSTU 4145 model: curves, point compression, signature equations, encodings. Arithmetic by libcrypto.
#include "model.h"
#include <openssl/objects.h>
#include <openssl/pkcs12.h>
#include <openssl/err.h>
#include <cstdlib>
namespace model {
struct Raw { std::vector<int> poly; int a; const char *b, *n, *x, *y; };
static const Raw raw[10] = {
    {{163, 7, 6, 3, 0}, 1,
     "05ff6108462a2dc8210ab403925e638a19c1455d21",
     "0400000000000000000002bec12be2262d39bcf14d",
     "02e2f85f5dd74ce983a5c4237229daf8a3f35823be",
     "03826f008a8c51d7b95284d9d03ff0e00ce2cd723a"},
    {{167, 6, 0}, 1,
     "6ee3ceeb230811759f20518a0930f1a4315a827dac",
     "3fffffffffffffffffffffb12ebcc7d7f29ff7701f",
     "7a1f6653786a68192803910a3d30b2a2018b21cd54",
     "5f49eb26781c0ec6b8909156d98ed435e45fd59918"},
    {{173, 10, 2, 1, 0}, 0,
     "108576c80499db2fc16eddf6853bbb278f6b6fb437d9",
     "0800000000000000000000189b4e67606e3825bb2831",
     "04d41a619bcc6eadf0448fa22fad567a9181d37389ca",
     "10b51cc12849b234c75e6dd2028bf7ff5c1ce0d991a1"},
    {{179, 4, 2, 1, 0}, 1,
     "04a6e0856526436f2f88dd07a341e32d04184572beb710",
     "03ffffffffffffffffffffffb981960435fe5ab64236ef",
     "06ba06fe51464b2bd26dc57f48819ba9954667022c7d03",
     "025fbc363582dcec065080ca8287aaff09788a66dc3a9e"},
    {{191, 9, 0}, 1,
     "7bc86e2102902ec4d5890e8b6b4981ff27e0482750fefc03",
     "40000000000000000000000069a779cac1dabc6788f7474f",
     "714114b762f2ff4a7912a6d2ac58b9b5c2fcfe76daeb7129",
     "29c41e568b77c617efe5902f11db96fa9613cd8d03db08da"},
    {{233, 9, 4, 1, 0}, 1,
     "006973b15095675534c7cf7e64a21bd54ef5dd3b8a0326aa936ece454d2c",
     "01000000000000000000000000000013e974e72f8a6922031d2603cfe0d7",
     "003fcda526b6cdf83ba1118df35b3c31761d3545f32728d003eeb25efe96",
     "009ca8b57a934c54deeda9e54a7bbad95e3b2e91c54d32be0b9df96d8d35"},
    {{257, 12, 0}, 0,
     "01cef494720115657e18f938d7a7942394ff9425c1458c57861f9eea6adbe3be10",
     "00800000000000000000000000000000006759213af182e987d3e17714907d470d",
     "002a29ef207d0e9b6c55cd260b306c7e007ac491ca1b10c62334a9e8dcd8d20fb7",
     "010686d41ff744d4449fccf6d8eea03102e6812c93a9d60b978b702cf156d814ef"},
    {{307, 8, 4, 2, 0}, 1,
     "0393c7f7d53666b5054b5e6c6d3de94f4296c0c599e2e2e241050df18b6090bdc90186904968bb",
     "03ffffffffffffffffffffffffffffffffffffffc079c2f3825da70d390fbba588d4604022b7b7",
     "0216ee8b189d291a0224984c1e92f1d16bf75ccd825a087a239b276d3167743c52c02d6e7232aa",
     "05d9306bacd22b7faeb09d2e049c6e2866c5d1677762a8f2f2dc9a11c7f7be8340ab2237c7f2a0"},
    {{367, 21, 0}, 1,
     "43fc8ad242b0b7a6f3d1627ad5654447556b47bf6aa4a64b0c2afe42cadab8f93d92394c79a79755437b56995136",
     "40000000000000000000000000000000000000000000009c300b75a3fa824f22428fd28ce8812245ef44049b2d49",
     "324a6eddd512f08c49a99ae0d3f961197a76413e7be81a400ca681e09639b5fe12e59a109f78bf4a373541b3b9a1",
     "01ab597a5b4477f59e39539007c7f977d1a567b92b043a49c6b61984c3fe3481aaf454cd41ba1f051626442b3c10"},
    {{431, 5, 3, 1, 0}, 1,
     "03ce10490f6a708fc26dfe8c3d27c4f94e690134d5bff988d8d28aaeaede975936c66bac536b18ae2dc312ca493117daa469c640caf3",
     "3fffffffffffffffffffffffffffffffffffffffffffffffffffffba3175458009a8c0a724f02f81aa8a1fcbaf80d90c7a95110504cf",
     "1a62ba79d98133a16bbae7ed9a8e03c32e0824d57aef72f88986874e5aae49c27bed49a2a95058068426c2171e99fd3b43c5947c857d",
     "70b5e1e14031c1f70bbefe96bdde66f451754b4ca5f48da241f331aa396b8d1839a855c1769b1ea14ba53308b5e2723724e090e02db9"},
};

std::vector<Curve> curves;
int first_custom, first_tiny;
const char *OID_LE = "1.2.804.2.1.1.1.1.3.1.1", *OID_BE = "1.2.804.2.1.1.1.1.3.1.1.1.1", *OID_HASH = "1.2.804.2.1.1.1.1.2.1", *OID_CFB = "1.2.804.2.1.1.1.1.1.1.3",
           *OID_HMAC = "1.2.804.2.1.1.1.1.1.2", *OID_PBES2 = "1.2.840.113549.1.5.13", *OID_PBKDF2 = "1.2.840.113549.1.5.12", *OID_DATA = "1.2.840.113549.1.7.1";

std::string curve_name(int i) { return curves[i].named >= 0 ? "uacurve" + std::to_string(curves[i].named) : "custom" + std::to_string(i) + "(m=" + std::to_string(curves[i].m) + ")"; }

[[noreturn]] static void die(const char *w) { fprintf(stderr, "model: %s\n", w); ERR_print_errors_fp(stderr); _exit(77); }

static EC_GROUP *mk(const std::vector<int> &poly, int a, const BIGNUM *b, const BIGNUM *n, const BIGNUM *x, const BIGNUM *y, int cof)
{
    BIGNUM *p = BN_new(), *A = BN_new();
    std::vector<int> arr = poly; arr.push_back(-1);
    BN_GF2m_arr2poly(arr.data(), p); BN_set_word(A, a);
    EC_GROUP *g = EC_GROUP_new_curve_GF2m(p, A, b, nullptr);
    if (!g) die("group");
    if (n)
    {
        EC_POINT *P = EC_POINT_new(g);
        if (!EC_POINT_set_affine_coordinates(g, P, x, y, nullptr)) die("base point");
        BIGNUM *c = nullptr;
        if (cof) { c = BN_new(); BN_set_word(c, cof); }
        if (!EC_GROUP_set_generator(g, P, n, c)) die("generator");
        BN_free(c); EC_POINT_free(P);
    }
    BN_free(p); BN_free(A);
    return g;
}

int fbytes(const EC_GROUP *g) { return (EC_GROUP_get_degree(g) + 7) / 8; }
int obytes(const EC_GROUP *g) { return BN_num_bytes(EC_GROUP_get0_order(g)); }

static void field(const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b) { if (!EC_GROUP_get_curve(g, p, a, b, nullptr)) die("curve"); }

int trace(const BIGNUM *x, const EC_GROUP *g)
{
    BN_CTX *c = BN_CTX_new(); BIGNUM *p = BN_new(), *t = BN_new(), *s = BN_new();
    field(g, p, nullptr, nullptr);
    BN_GF2m_mod(t, x, p); BN_zero(s);
    for (int i = 0; i < EC_GROUP_get_degree(g); i++) { BN_GF2m_add(s, s, t); BN_GF2m_mod_sqr(t, t, p, c); }
    int r = BN_is_zero(s) ? 0 : 1;
    BN_free(p); BN_free(t); BN_free(s); BN_CTX_free(c);
    return r;
}

Bytes compress(const EC_GROUP *g, const EC_POINT *P)
{
    BN_CTX *c = BN_CTX_new(); BIGNUM *x = BN_new(), *y = BN_new(), *p = BN_new(), *i = BN_new();
    Bytes out(fbytes(g), 0);
    field(g, p, nullptr, nullptr);
    if (!EC_POINT_get_affine_coordinates(g, P, x, y, c)) { out.clear(); }
    else if (!BN_is_zero(x))
    {
        BN_GF2m_mod_inv(i, x, p, c); BN_GF2m_mod_mul(i, i, y, p, c);
        if (trace(i, g)) BN_set_bit(x, 0); else if (BN_is_bit_set(x, 0)) BN_clear_bit(x, 0);
        out = bnb(x, fbytes(g));
    }
    BN_free(x); BN_free(y); BN_free(p); BN_free(i); BN_CTX_free(c);
    return out;
}

EC_POINT *expand(const EC_GROUP *g, int a, const Bytes &in)
{
    BN_CTX *c = BN_CTX_new(); BIGNUM *x = BN_new(), *y = BN_new(), *p = BN_new(), *b = BN_new(), *t = BN_new();
    EC_POINT *P = nullptr;
    field(g, p, nullptr, b);
    BN_bin2bn(in.data(), (int) in.size(), x);
    bool ok = BN_num_bits(x) <= EC_GROUP_get_degree(g);
    if (ok && BN_is_zero(x)) ok = BN_GF2m_mod_sqrt(y, b, p, c);
    else if (ok)
    {
        int k = BN_is_bit_set(x, 0);
        if (k) BN_clear_bit(x, 0);
        if (trace(x, g) != a) BN_set_bit(x, 0);     // Tr(x) = Tr(a) for points of odd order
        if (BN_is_zero(x)) ok = false;
        else
        {
            // y = x z, z^2 + z = x + a + b / x^2
            BN_GF2m_mod_sqr(t, x, p, c); BN_GF2m_mod_inv(t, t, p, c); BN_GF2m_mod_mul(t, t, b, p, c); BN_GF2m_add(t, t, x);
            if (a) BN_GF2m_add(t, t, BN_value_one());
            BN_GF2m_mod(t, t, p);
            if (trace(t, g)) ok = false;
            else
            {
                ok = BN_GF2m_mod_solve_quad(y, t, p, c);
                if (ok) { if (trace(y, g) != k) BN_GF2m_add(y, y, BN_value_one()); BN_GF2m_mod_mul(y, y, x, p, c); }
            }
        }
    }
    if (ok) { P = EC_POINT_new(g); if (!EC_POINT_set_affine_coordinates(g, P, x, y, c)) { EC_POINT_free(P); P = nullptr; } }
    BN_free(x); BN_free(y); BN_free(p); BN_free(b); BN_free(t); BN_CTX_free(c);
    ERR_clear_error();
    return P;
}

// a*P + b*Q; small groups by plain double-and-add, because the ladder's formulas have exceptions there
static bool mul2(const EC_GROUP *g, EC_POINT *R, const BIGNUM *a, const EC_POINT *P, const BIGNUM *b, const EC_POINT *Q)
{
    if (EC_GROUP_get_degree(g) > 40)
    {
        BIGNUM *z = BN_new(); BN_zero(z);
        bool ok;
        if (!Q) ok = EC_POINT_mul(g, R, a, P, z, nullptr) == 1;
        else ok = EC_POINT_mul(g, R, a, Q, b, nullptr) == 1;
        BN_free(z);
        return ok;
    }
    EC_POINT_set_to_infinity(g, R);
    bool ok = true;
    int n = BN_num_bits(a); if (b && BN_num_bits(b) > n) n = BN_num_bits(b);
    for (int i = n - 1; i >= 0 && ok; i--)
    {
        ok = EC_POINT_dbl(g, R, R, nullptr);
        if (ok && BN_is_bit_set(a, i)) ok = EC_POINT_add(g, R, R, P, nullptr);
        if (ok && b && BN_is_bit_set(b, i)) ok = EC_POINT_add(g, R, R, Q, nullptr);
    }
    return ok;
}

EC_POINT *pub(const EC_GROUP *g, const BIGNUM *d)
{
    EC_POINT *q = EC_POINT_new(g);
    if (!mul2(g, q, d, EC_GROUP_get0_generator(g), nullptr, nullptr) || !EC_POINT_invert(g, q, nullptr)) die("public point");
    return q;
}

static void trunc(BIGNUM *b, int bits) { if (BN_num_bits(b) > bits) BN_mask_bits(b, bits); }

BIGNUM *hash_elem(const Bytes &h, const EC_GROUP *g)
{
    Bytes r = rev(h);
    BIGNUM *b = BN_bin2bn(r.data(), (int) r.size(), nullptr);
    trunc(b, EC_GROUP_get_degree(g));
    if (BN_is_zero(b)) BN_one(b);
    return b;
}

bool verify(const EC_GROUP *g, const EC_POINT *Q, const Bytes &hash, const BIGNUM *r, const BIGNUM *s)
{
    const BIGNUM *n = EC_GROUP_get0_order(g);
    if (BN_is_zero(r) || BN_is_zero(s) || BN_is_negative(r) || BN_is_negative(s) || BN_cmp(r, n) >= 0 || BN_cmp(s, n) >= 0) return false;
    BN_CTX *c = BN_CTX_new(); BIGNUM *h = hash_elem(hash, g), *p = BN_new(), *x = BN_new();
    EC_POINT *R = EC_POINT_new(g);
    bool ok = false;
    field(g, p, nullptr, nullptr);
    if (mul2(g, R, s, EC_GROUP_get0_generator(g), r, Q) && !EC_POINT_is_at_infinity(g, R) && EC_POINT_get_affine_coordinates(g, R, x, nullptr, c))
    {
        BN_GF2m_mod_mul(x, x, h, p, c);
        trunc(x, BN_num_bits(n) - 1);
        ok = BN_cmp(x, r) == 0;
    }
    EC_POINT_free(R); BN_free(h); BN_free(p); BN_free(x); BN_CTX_free(c);
    ERR_clear_error();
    return ok;
}

void sign(const Key &k, const Bytes &hash, const BIGNUM *e0, BIGNUM *r, BIGNUM *s)
{
    const EC_GROUP *g = k.g(); const BIGNUM *n = EC_GROUP_get0_order(g);
    BN_CTX *c = BN_CTX_new(); BIGNUM *h = hash_elem(hash, g), *p = BN_new(), *x = BN_new(), *z = BN_new(), *e = BN_dup(e0);
    EC_POINT *R = EC_POINT_new(g);
    field(g, p, nullptr, nullptr); BN_zero(z);
    BN_nnmod(e, e, n, c);
    for (int i = 0;; i++)
    {
        if (i > 5000) die("model cannot sign");
        if (!BN_is_zero(e))
        {
            if (!mul2(g, R, e, EC_GROUP_get0_generator(g), nullptr, nullptr) || !EC_POINT_get_affine_coordinates(g, R, x, nullptr, c)) die("sign");
            BN_GF2m_mod_mul(r, x, h, p, c);
            trunc(r, BN_num_bits(n) - 1);
            BN_mod_mul(s, k.d, r, n, c); BN_mod_add(s, s, e, n, c);
            if (!BN_is_zero(r) && !BN_is_zero(s)) break;
        }
        BN_mod_add(e, e, BN_value_one(), n, c);
    }
    EC_POINT_free(R); BN_free(h); BN_free(p); BN_free(x); BN_free(z); BN_free(e); BN_CTX_free(c);
}

// ------------------------------------------------------------ bytes and DER
Bytes rev(const Bytes &b) { return Bytes(b.rbegin(), b.rend()); }
Bytes bnb(const BIGNUM *b, int len) { Bytes o(len, 0); if (BN_bn2binpad(b, o.data(), len) < 0) o.clear(); return o; }
Bytes str(const char *s) { return Bytes(s, s + strlen(s)); }
Bytes unhex(const std::string &h) { Bytes o; for (size_t i = 0; i + 1 < h.size(); i += 2) o.push_back((unsigned char) strtol(h.substr(i, 2).c_str(), nullptr, 16)); return o; }
Bytes cat(std::initializer_list<Bytes> l) { Bytes o; for (auto &b : l) o.insert(o.end(), b.begin(), b.end()); return o; }
Bytes tlv(unsigned tag, const Bytes &c)
{
    Bytes o; o.push_back((unsigned char) tag);
    size_t n = c.size();
    if (n < 128) o.push_back((unsigned char) n);
    else if (n < 256) { o.push_back(0x81); o.push_back((unsigned char) n); }
    else if (n < 65536) { o.push_back(0x82); o.push_back((unsigned char) (n >> 8)); o.push_back((unsigned char) n); }
    else { o.push_back(0x83); o.push_back((unsigned char) (n >> 16)); o.push_back((unsigned char) (n >> 8)); o.push_back((unsigned char) n); }
    o.insert(o.end(), c.begin(), c.end());
    return o;
}
Bytes seq(std::initializer_list<Bytes> l) { return tlv(0x30, cat(l)); }
Bytes seqv(const std::vector<Bytes> &l) { Bytes o; for (auto &b : l) o.insert(o.end(), b.begin(), b.end()); return tlv(0x30, o); }
Bytes setv(const std::vector<Bytes> &l) { Bytes o; for (auto &b : l) o.insert(o.end(), b.begin(), b.end()); return tlv(0x31, o); }
Bytes integer(long v) { BIGNUM *b = BN_new(); BN_set_word(b, v); Bytes o = integer_bn(b); BN_free(b); return o; }
Bytes integer_bn(const BIGNUM *v) { Bytes o = bnb(v, BN_num_bytes(v)); if (o.empty() || (o[0] & 0x80)) o.insert(o.begin(), 0); return tlv(2, o); }
Bytes octets(const Bytes &b) { return tlv(4, b); }
Bytes bits(const Bytes &b) { Bytes o(1, 0); o.insert(o.end(), b.begin(), b.end()); return tlv(3, o); }
Bytes null() { return {5, 0}; }
Bytes utf8(const char *s) { return tlv(12, str(s)); }
Bytes oid(const char *d)
{
    std::vector<unsigned long> v; const char *p = d; char *e;
    while (*p) { v.push_back(strtoul(p, &e, 10)); p = *e ? e + 1 : e; }
    Bytes o;
    auto put = [&](unsigned long x) { unsigned char t[10]; int n = 0; do { t[n++] = x & 127; x >>= 7; } while (x); while (n--) o.push_back((unsigned char) (t[n] | (n ? 0x80 : 0))); };
    put(v[0] * 40 + v[1]);
    for (size_t i = 2; i < v.size(); i++) put(v[i]);
    return tlv(6, o);
}
bool der_next(const unsigned char *&p, const unsigned char *end, Der *d)
{
    const unsigned char *s = p;
    if (end - p < 2) return false;
    d->tag = *p++;
    size_t n = *p++;
    if (n & 0x80) { int k = n & 0x7f; if (k == 0 || k > 3 || end - p < k) return false; n = 0; while (k--) n = n << 8 | *p++; }
    if ((size_t) (end - p) < n) return false;
    d->hdr = p - s; d->len = n; d->p = p;
    p += n;
    return true;
}

// ------------------------------------------------------------ keys
void Key::set(int c, bool l, const Bytes &sb, const BIGNUM *dd)
{
    curve = c; le = l; sbox = sb;
    BN_free(d); EC_POINT_free(q);
    d = BN_dup(dd); q = pub(g(), d);
}
Bytes params_der(const Key &k, bool expl)
{
    const Curve &c = curves[k.curve];
    Bytes spec;
    if (c.named >= 0) spec = oid(("1.2.804.2.1.1.1.1.3.1.1.2." + std::to_string(c.named)).c_str());
    else
    {
        Bytes poly = c.poly.size() == 3 ? integer(c.poly[1]) : seq({integer(c.poly[3]), integer(c.poly[2]), integer(c.poly[1])});
        Bytes b = unhex(c.b), bp = compress(c.g, EC_GROUP_get0_generator(c.g));
        if (k.le) { b = rev(b); bp = rev(bp); }
        spec = seq({seq({integer(c.m), poly}), integer(c.a), octets(b), integer_bn(c.order), octets(bp)});
    }
    Bytes sb;
    if (!k.sbox.empty() && (expl || memcmp(k.sbox.data(), default_sbox, 64))) sb = octets(k.sbox);
    else if (expl) sb = octets(Bytes(default_sbox, default_sbox + 64));
    return seq({spec, sb});
}
Bytes alg_id(const Key &k, bool e) { return seq({oid(k.le ? OID_LE : OID_BE), params_der(k, e)}); }
Bytes pkcs8(const Key &k, bool e) { return seq({integer(0), alg_id(k, e), octets(rev(bnb(k.d, BN_num_bytes(k.d))))}); }
Bytes spki(const Key &k, bool e)
{
    Bytes c = compress(k.g(), k.q);
    if (k.le) c = rev(c);
    return seq({alg_id(k, e), bits(octets(c))});
}
Bytes sig_raw(const EC_GROUP *g, const BIGNUM *r, const BIGNUM *s, bool le)
{
    Bytes o = cat({bnb(s, obytes(g)), bnb(r, obytes(g))});
    return le ? rev(o) : o;
}
Bytes pbes2(const Bytes &plain, const Bytes &pass, const Bytes &salt, int iter, const Bytes &iv, const Bytes &dke, bool keylen)
{
    Bytes key = pbkdf2(pass, salt, iter, 32);
    Bytes kdf = seq({oid(OID_PBKDF2), seq({octets(salt), integer(iter), keylen ? integer(32) : Bytes(), seq({oid(OID_HMAC), null()})})});
    Bytes enc = seq({oid(OID_CFB), seq({octets(iv), octets(dke)})});
    return seq({seq({oid(OID_PBES2), seq({kdf, enc})}), octets(cfb(key.data(), dke.data(), iv.data(), plain, true))});
}
Bytes cert(const Key &sub, const Key &iss, long serial, const char *cn, unsigned usage, const BIGNUM *nonce, const Bytes &skid)
{
    Bytes name = seq({setv({seq({oid("2.5.4.3"), utf8(cn)})})});
    Bytes sa = seq({oid(iss.le ? OID_LE : OID_BE)});
    std::vector<Bytes> ex;
    if (usage) { unsigned char u[2] = {(unsigned char) (usage >> 8), (unsigned char) usage}; Bytes v; if (u[1]) v = {3, 3, 0, u[0], u[1]}; else v = {3, 2, 0, u[0]}; ex.push_back(seq({oid("2.5.29.15"), tlv(1, {0xff}), octets(v)})); }
    if (!skid.empty()) ex.push_back(seq({oid("2.5.29.14"), octets(octets(skid))}));
    Bytes tbs = seq({tlv(0xa0, integer(2)), integer(serial), sa, name, seq({tlv(0x17, str("200101000000Z")), tlv(0x17, str("400101000000Z"))}), name, spki(sub), ex.empty() ? Bytes() : tlv(0xa3, seqv(ex))});
    BIGNUM *r = BN_new(), *s = BN_new();
    sign(iss, hash(tbs, iss.sbox.empty() ? default_sbox : iss.sbox.data()), nonce, r, s);
    Bytes sg = bits(octets(sig_raw(iss.g(), r, s, iss.le)));
    BN_free(r); BN_free(s);
    return seq({tbs, sa, sg});
}

EVP_PKEY *import_priv(const Key &k)
{
    Bytes der = pkcs8(k); const unsigned char *p = der.data();
    PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long) der.size());
    if (!i) return nullptr;
    EVP_PKEY *r = EVP_PKCS82PKEY(i);
    PKCS8_PRIV_KEY_INFO_free(i);
    return r;
}
EVP_PKEY *import_pub(const Key &k)
{
    Bytes der = spki(k); const unsigned char *p = der.data();
    return d2i_PUBKEY(nullptr, &p, (long) der.size());
}
Bytes export_pub(const EVP_PKEY *p)
{
    unsigned char *o = nullptr; int n = i2d_PUBKEY(p, &o);
    Bytes r; if (n > 0) r.assign(o, o + n);
    OPENSSL_free(o);
    return r;
}
Bytes export_priv(const EVP_PKEY *p)
{
    PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(p);
    if (!i) return Bytes();
    unsigned char *o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(i, &o);
    Bytes r; if (n > 0) r.assign(o, o + n);
    OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(i);
    return r;
}
bool read_pkcs8(const Bytes &der, Key *k)
{
    // recognise the algorithm identifier among all curves
    const unsigned char *p = der.data(), *e = p + der.size(); Der d, v, a, o;
    if (!der_next(p, e, &d) || d.tag != 0x30 || p != e) return false;
    p = d.p; e = d.p + d.len;
    if (!der_next(p, e, &v) || v.tag != 2 || !der_next(p, e, &a) || a.tag != 0x30 || !der_next(p, e, &o) || o.tag != 4) return false;
    Bytes alg(a.p - a.hdr, a.p + a.len);
    // the table, if any, is the last 64-byte octet string of the parameters
    Bytes sb;
    const unsigned char *q = a.p, *qe = a.p + a.len; Der x, y;
    if (!der_next(q, qe, &x) || !der_next(q, qe, &y) || y.tag != 0x30) return false;
    q = y.p; qe = y.p + y.len;
    if (!der_next(q, qe, &x)) return false;
    if (q < qe) { if (!der_next(q, qe, &x) || x.tag != 4 || x.len != 64) return false; sb.assign(x.p, x.p + 64); }
    BIGNUM *dd = BN_bin2bn(rev(Bytes(o.p, o.p + o.len)).data(), (int) o.len, nullptr);
    bool found = false;
    for (int c = 0; c < (int) curves.size() && !found; c++)
        for (int le = 0; le < 2 && !found; le++)
        {
            Key t; t.curve = c; t.le = le; t.sbox = sb;
            if (alg_id(t) == alg) { k->set(c, le, sb, dd); found = true; }
        }
    BN_free(dd);
    return found;
}

// ------------------------------------------------------------ the curve table
static unsigned gmul(unsigned a, unsigned b, unsigned p, int m) { unsigned r = 0; while (b) { if (b & 1) r ^= a; b >>= 1; a <<= 1; if (a >> m & 1) a ^= p; } return r; }
static bool isprime(unsigned n) { if (n < 2) return false; for (unsigned i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }

static void add_tiny(std::vector<int> poly, int a, int want)
{
    int m = poly[0]; unsigned p = 0;
    for (int e : poly) p |= 1u << e;
    auto inv = [&](unsigned x) { unsigned r = 1, b = x; for (int i = 1; i < m; i++) { b = gmul(b, b, p, m); r = gmul(r, b, p, m); } return r; };
    auto tr = [&](unsigned x) { unsigned s = 0, t = x; for (int i = 0; i < m; i++) { s ^= t; t = gmul(t, t, p, m); } return s & 1; };
    std::vector<unsigned> iv(1u << m); for (unsigned x = 1; x < 1u << m; x++) iv[x] = inv(x);
    unsigned tmask = 0; for (int i = 0; i < m; i++) if (tr(1u << i)) tmask |= 1u << i;
    for (unsigned b = 1, got = 0; b < 1u << m && (int) got < want; b++)
    {
        unsigned cnt = 2;
        for (unsigned x = 1; x < 1u << m; x++)
        {
            unsigned ix = iv[x], t = x ^ (a ? 1 : 0) ^ gmul(b, gmul(ix, ix, p, m), p, m);
            if (!(__builtin_popcount(t & tmask) & 1)) cnt += 2;
        }
        // libcrypto cannot negate a point with y = 0: take a curve that has none
        bool flat = false;
        for (unsigned x = 1; x < 1u << m && !flat; x++) { unsigned q = gmul(x, x, p, m); flat = (gmul(q, x, p, m) ^ (a ? q : 0)) == b; }
        if (flat) continue;
        unsigned h = a && m % 2 ? 2 : 4;
        if (cnt % h) continue;
        unsigned n = cnt / h;
        if (n % 2 == 0 || !isprime(n) || n < 5) continue;
        BIGNUM *B = BN_new(), *N = BN_new(), *X = BN_new(), *Y = BN_new(); BN_set_word(B, b); BN_set_word(N, n);
        EC_GROUP *g0 = mk(poly, a, B, nullptr, nullptr, nullptr, 0);
        EC_POINT *P = EC_POINT_new(g0); bool ok = false;
        for (unsigned x = 2; x < 1u << m && !ok; x++)
        {
            Bytes c = { (unsigned char) (x >> 8), (unsigned char) x };
            EC_POINT *Q = expand(g0, a, c);
            if (!Q) continue;
            for (unsigned k = h; k > 1; k /= 2) EC_POINT_dbl(g0, Q, Q, nullptr);
            if (!EC_POINT_is_at_infinity(g0, Q))
            {
                Bytes z = compress(g0, Q); bool zero = true; for (auto q : z) if (q) zero = false;
                EC_POINT *back = zero ? nullptr : expand(g0, a, z);
                if (back && !EC_POINT_cmp(g0, back, Q, nullptr)) { EC_POINT_copy(P, Q); ok = true; }
                EC_POINT_free(back);
            }
            EC_POINT_free(Q);
        }
        if (ok)
        {
            EC_POINT_get_affine_coordinates(g0, P, X, Y, nullptr);
            Curve c; c.poly = poly; c.a = a; c.m = m; c.tiny = true; c.cof = (int) h;
            int fb = (m + 7) / 8; Bytes bb = bnb(B, fb); c.b.clear();
            for (auto q : bb) { char t[3]; snprintf(t, 3, "%02x", q); c.b += t; }
            c.g = mk(poly, a, B, N, X, Y, 1); c.order = BN_dup(N);
            curves.push_back(c); got++;
        }
        EC_POINT_free(P); EC_GROUP_free(g0); BN_free(B); BN_free(N); BN_free(X); BN_free(Y);
    }
}

void dstu_init()
{
    if (!curves.empty()) return;
    for (int i = 0; i < 10; i++)
    {
        Curve c; c.poly = raw[i].poly; c.a = raw[i].a; c.b = raw[i].b; c.n = raw[i].n; c.x = raw[i].x; c.y = raw[i].y; c.named = i; c.m = c.poly[0];
        BIGNUM *b = nullptr, *n = nullptr, *x = nullptr, *y = nullptr;
        BN_hex2bn(&b, raw[i].b); BN_hex2bn(&n, raw[i].n); BN_hex2bn(&x, raw[i].x); BN_hex2bn(&y, raw[i].y);
        c.g = mk(c.poly, c.a, b, n, x, y, 1); c.order = n;
        c.nid = OBJ_sn2nid(("uacurve" + std::to_string(i)).c_str());
        curves.push_back(c);
        BN_free(b); BN_free(x); BN_free(y);
    }
    first_custom = (int) curves.size();
    static const int nids[] = {NID_sect163k1, NID_sect233k1, NID_sect239k1, NID_sect283k1, NID_X9_62_c2tnb191v1};
    for (int nid : nids)
    {
        EC_GROUP *g = EC_GROUP_new_by_curve_name(nid);
        if (!g) { ERR_clear_error(); continue; }
        BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *x = BN_new(), *y = BN_new();
        EC_GROUP_get_curve(g, p, a, b, nullptr);
        if ((BN_is_zero(a) || BN_is_one(a)) && EC_POINT_get_affine_coordinates(g, EC_GROUP_get0_generator(g), x, y, nullptr))
        {
            Curve c; int arr[8]; BN_GF2m_poly2arr(p, arr, 8);
            for (int i = 0; arr[i] >= 0; i++) c.poly.push_back(arr[i]);
            c.a = BN_is_one(a); c.m = c.poly[0]; c.cof = (int) BN_get_word(EC_GROUP_get0_cofactor(g)); c.order = BN_dup(EC_GROUP_get0_order(g));
            Bytes bb = bnb(b, (c.m + 7) / 8); for (auto q : bb) { char t[3]; snprintf(t, 3, "%02x", q); c.b += t; }
            c.g = mk(c.poly, c.a, b, c.order, x, y, 1);
            if (c.poly.size() == 3 || c.poly.size() == 5) curves.push_back(c);
        }
        BN_free(p); BN_free(a); BN_free(b); BN_free(x); BN_free(y); EC_GROUP_free(g);
    }
    first_tiny = (int) curves.size();
    add_tiny({5, 2, 0}, 1, 1); add_tiny({7, 1, 0}, 1, 2); add_tiny({7, 1, 0}, 0, 1); add_tiny({9, 1, 0}, 1, 1); add_tiny({9, 4, 0}, 0, 1); add_tiny({11, 2, 0}, 1, 1);
    add_tiny({11, 4, 2, 1, 0}, 0, 1); add_tiny({13, 4, 3, 1, 0}, 1, 1); add_tiny({13, 4, 3, 1, 0}, 0, 1);
    for (size_t i = 0; i < curves.size(); i++)
    {
        EC_POINT *q = EC_POINT_new(curves[i].g);
        BIGNUM *one = BN_new(); BN_zero(one);
        const EC_POINT *P = EC_GROUP_get0_generator(curves[i].g);
        if (!EC_POINT_mul(curves[i].g, q, curves[i].order, P, one, nullptr) || !EC_POINT_is_at_infinity(curves[i].g, q)) die(("order of " + curve_name((int) i)).c_str());
        EC_POINT *b = expand(curves[i].g, curves[i].a, compress(curves[i].g, P));
        if (!b || EC_POINT_cmp(curves[i].g, b, P, nullptr)) die(("compression on " + curve_name((int) i)).c_str());
        EC_POINT_free(q); EC_POINT_free(b); BN_free(one);
    }
}
}
