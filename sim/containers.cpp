#include "containers.h"
#include "common.h"
#include <openssl/sha.h>
#include <openssl/err.h>
#include <fstream>
#include <iterator>
#include <map>
using namespace sim;
using namespace model;

namespace cont {
const char *type_name[] = {"Key-6", "JKS", "PKCS#12"};

Password pick_password(bool nonempty)
{
    Password p; uint32_t n = nonempty ? 1 + choose(choose(4, "long") ? 12 : 70, "password length") : choose(12, "password length"), style = choose(4, "alphabet");
    for (uint32_t i = 0; i < n; i++)
    {
        unsigned c;
        switch (style == 3 ? choose(4, "char class") : style)
        {
        case 0: c = 33 + choose(94, "char"); break;
        case 1: c = 0x400 + choose(0x60, "char"); break;
        case 2: c = 0x2000 + choose(0x800, "char"); break;
        default: c = 0x1F600 + choose(60, "char");
        }
        if (c < 0x80) p.u8.push_back((unsigned char) c);
        else if (c < 0x800) { p.u8.push_back(0xC0 | c >> 6); p.u8.push_back(0x80 | (c & 63)); }
        else if (c < 0x10000) { p.u8.push_back(0xE0 | c >> 12); p.u8.push_back(0x80 | (c >> 6 & 63)); p.u8.push_back(0x80 | (c & 63)); }
        else { p.u8.push_back(0xF0 | c >> 18); p.u8.push_back(0x80 | (c >> 12 & 63)); p.u8.push_back(0x80 | (c >> 6 & 63)); p.u8.push_back(0x80 | (c & 63)); }
        auto put = [&](unsigned u) { p.u16.push_back((unsigned char) (u >> 8)); p.u16.push_back((unsigned char) u); };
        if (c < 0x10000) put(c); else { put(0xD800 + ((c - 0x10000) >> 10)); put(0xDC00 + ((c - 0x10000) & 0x3ff)); }
    }
    return p;
}

static std::vector<Bytes> pool; static Bytes bigcert;
void init()
{
    for (int i = 0; i < 8; i++)
    {
        Key s, c; BIGNUM *d = BN_new(), *e = BN_new();
        BN_set_word(d, 1234567 + 7919 * i); s.set(i % 10, i % 3 != 0, i == 5 ? Bytes(64, 0x5a) : Bytes(), d);
        BN_set_word(d, 7654321 + i); c.set(i & 1, true, Bytes(), d); BN_set_word(e, 99991 + i);
        pool.push_back(cert(s, c, 1000 + i, ("sim " + std::to_string(i)).c_str(), 0xC000, e, Bytes(20, (unsigned char) i)));
        if (i == 1) bigcert = model::cert(s, c, 2000, "sim big", 0xC000, e, Bytes(70000, 0x42));
        BN_free(d); BN_free(e);
    }
}
bool extremes;
static int extreme;                                    // which size of the container being made is out of the ordinary

Bytes pick_cert() { if (extreme == 3 && choose(3, "big certificate")) return bigcert; return pool[choose((uint32_t) pool.size(), "cert")]; }
static uint32_t many(uint32_t usual) { return 255 + choose(usual, "many"); }

static unsigned char swapbits(unsigned char b) { unsigned char r = 0; for (int i = 0; i < 8; i++) if (b & (1 << i)) r |= 0x80 >> i; return r; }
static Bytes fill(const char *w, size_t n) { return rbytes(n, w); }

// the values of an attribute: now and then one of another type comes before
static Bytes decoyed(const Bytes &v)
{
    switch (choose(12, "attribute values"))
    {
    case 9: return setv({integer(7), v});
    case 10: return setv({utf8("value"), v});
    case 11: return setv({integer(1), utf8("x"), v, v});
    default: return setv({v});
    }
}

Bytes pkcs8_with_attr(const Key &k1, const Key *k2)
{
    Bytes d1 = rev(bnb(k1.d, BN_num_bytes(k1.d)));
    uint32_t part = 0;
    if (!k2 && extreme == 4) { Bytes o = seq({oid("1.2.840.113549.1.9.20"), setv({utf8(std::string(66000 + choose(3000, "long"), 'n').c_str())})}); return seq({integer(0), alg_id(k1), octets(d1), tlv(0xa0, o)}); }
    if (!k2)
    {
        // no second key; sometimes only a part of one
        part = choose(8, "partial second key");
        if (part < 5) return pkcs8(k1);
        k2 = &k1;
    }
    const Curve &c = curves[k2->curve];
    Bytes poly = c.poly.size() == 3 ? integer(c.poly[1]) : seq({integer(c.poly[3]), integer(c.poly[2]), integer(c.poly[1])});
    BIGNUM *B = BN_new(); EC_GROUP_get_curve(c.g, nullptr, nullptr, B, nullptr); Bytes b = bnb(B, fbytes(c.g)); BN_free(B);
    Bytes spec = seq({seq({integer(c.m), poly}), integer(c.a), octets(b), integer_bn(c.order), octets(compress(c.g, EC_GROUP_get0_generator(c.g)))});
    Bytes dke(default_sbox, default_sbox + 64);
    Bytes d = rev(bnb(k2->d, obytes(c.g))); for (auto &x : d) x = swapbits(x);
    Bytes curve = seq({oid("1.3.6.1.4.1.19398.1.1.2.2"), decoyed(seq({spec, octets(dke), octets(dke)}))});
    Bytes key = seq({oid("1.3.6.1.4.1.19398.1.1.2.3"), decoyed(choose(2, "bit string") ? bits(d) : octets(d))});
    Bytes other = seq({oid("1.2.840.113549.1.9.20"), setv({utf8(extreme == 4 ? std::string(66000 + choose(3000, "long"), 'n').c_str() : "name")})});
    std::vector<Bytes> at;
    uint32_t order = choose(4, "attribute order");
    if (order & 1) { at.push_back(key); at.push_back(curve); } else { at.push_back(curve); at.push_back(key); }
    if (part == 6) at.erase(at.begin());
    if (part == 7) at.pop_back();
    if (part == 5) { at.clear(); at.push_back(other); }
    if (order & 2) at.insert(at.begin() + 1, other);
    Bytes all; for (auto &a : at) all = cat({all, a});
    return seq({integer(0), alg_id(k1), octets(d1), tlv(0xa0, all)});
}

static Bytes sha1(const Bytes &m) { Bytes o(20); SHA1(m.data(), m.size(), o.data()); return o; }
static Bytes sha256(const Bytes &m) { Bytes o(32); SHA256(m.data(), m.size(), o.data()); return o; }

Bytes jks_protect(const Bytes &plain, const Bytes &pw, const Bytes &salt)
{
    Bytes o = salt, d = salt;
    for (size_t i = 0; i < plain.size(); i++)
    {
        if (i % 20 == 0) d = sha1(cat({pw, d}));
        o.push_back(plain[i] ^ d[i % 20]);
    }
    return cat({o, sha1(cat({pw, plain}))});
}
Bytes jks_digest(const Bytes &body, const Bytes &pw) { return sha1(cat({pw, str("Mighty Aphrodite"), body})); }

static Bytes be16(size_t n) { return {(unsigned char) (n >> 8), (unsigned char) n}; }
static Bytes be32(size_t n) { return {(unsigned char) (n >> 24), (unsigned char) (n >> 16), (unsigned char) (n >> 8), (unsigned char) n}; }

Bytes p12_kdf(const char *hash, const Bytes &bmp, const Bytes &salt, int id, int iter)
{
    bool gost = !strcmp(hash, "gost"); size_t v = gost ? 32 : 64;
    auto H = [&](const Bytes &m) { return gost ? model::hash(m) : !strcmp(hash, "sha1") ? sha1(m) : sha256(m); };
    auto rep = [&](const Bytes &x) { Bytes o; size_t n = x.empty() ? 0 : (x.size() + v - 1) / v * v; while (o.size() < n) o.push_back(x[o.size() % x.size()]); return o; };
    Bytes a = cat({Bytes(v, (unsigned char) id), rep(salt), rep(bmp)});
    for (int i = 0; i < iter; i++) a = H(a);
    return a;                                          // one block is all a MAC key needs
}
static Bytes hmacx(const char *hash, const Bytes &key, const Bytes &m)
{
    if (!strcmp(hash, "gost")) return hmac(key, m);
    Bytes k = key; k.resize(64, 0); Bytes i = k, o = k; for (auto &x : i) x ^= 0x36; for (auto &x : o) x ^= 0x5c;
    if (!strcmp(hash, "sha1")) return sha1(cat({o, sha1(cat({i, m}))}));
    return sha256(cat({o, sha256(cat({i, m}))}));
}

Bytes key6_kdf(const Bytes &pw)
{
    Bytes k = model::hash(pw);
    for (int i = 0; i < 9999; i++) k = model::hash(k);
    return k;
}

static Bytes key6(const Bytes &plain, const Bytes &pw, const Bytes *sealed = nullptr, int maclen = 4)
{
    // the derivation is slow: one result per password of the pool
    static std::map<Bytes, Bytes> cache;
    auto it = cache.find(pw);
    if (it == cache.end()) it = cache.emplace(pw, key6_kdf(pw)).first;
    Bytes p = plain; size_t pad = (8 - p.size() % 8) % 8;
    p.insert(p.end(), pad, 0);                         // as in the sample file: zeros, so the checksum over either length agrees
    Gost g; g.init(unpack(default_sbox)); g.setkey(it->second.data());
    Bytes c(p.size()); for (size_t i = 0; i < p.size(); i += 8) g.enc(&p[i], &c[i]);
    Bytes m = mac(it->second.data(), default_sbox, p);
    if (sealed) { Bytes q = *sealed; q.insert(q.end(), (8 - q.size() % 8) % 8, 0); m = mac(it->second.data(), default_sbox, q); m.resize((size_t) maclen, 0); }
    Bytes params = pad ? seq({octets(m), octets(Bytes(c.end() - (long) pad, c.end()))}) : seq({octets(m)});
    return seq({seq({oid("1.3.6.1.4.1.19398.1.1.1.2"), params}), octets(Bytes(c.begin(), c.end() - (long) pad))});
}

static void pick_pair(Key *k1, Key *k2, bool *two)
{
    if (choose(3, "class") == 2) make_key(k1, first_custom, (int) curves.size()); else make_key(k1, 0, choose(3, "big") == 2 ? 10 : 3);
    *two = choose(2, "second key") != 0;
    if (*two)
    {
        Key t; if (choose(3, "class") == 2) make_key(&t, first_custom, (int) curves.size()); else make_key(&t, 0, choose(3, "big") == 2 ? 10 : 3);
        BIGNUM *d = BN_dup(t.d); k2->set(t.curve, true, Bytes(), d); BN_free(d);
    }
}

static Box make_key6(bool hostile)
{
    Box b; b.type = KEY6; b.slow = true;
    static const char *pws[] = {"tect4", "x", "\xd0\xbf\xd0\xb0\xd1\x80\xd0\xbe\xd0\xbb\xd1\x8c", "0123456789abcdef0123456789abcdef0123456789"};
    b.store.u8 = str(pws[choose(4, "password")]);
    Key k1, k2; bool two; pick_pair(&k1, &k2, &two);
    Bytes p8 = pkcs8_with_attr(k1, two ? &k2 : nullptr);
    if (hostile) p8 = der_mangle(p8);
    b.keys.push_back(pkcs8(k1)); if (two) b.keys.push_back(pkcs8(k2));
    b.bytes = key6(p8, b.store.u8); b.used = b.bytes.size();
    return b;
}

// the blocks of another key under what is left of the checksum of this one
Box key6_forged(const char **what)
{
    Uncounted u;
    Box b; b.type = KEY6; b.slow = true; b.store.u8 = str("tect4");
    Key k1, k2; bool two; pick_pair(&k1, &k2, &two);
    Bytes p8 = pkcs8_with_attr(k1, two ? &k2 : nullptr), o8;
    b.keys.push_back(pkcs8(k1)); if (two) b.keys.push_back(pkcs8(k2));
    do { Key o; make_key(&o, 0, 3); o8 = pkcs8(o); o.clear(); } while (o8 == p8);
    static const int l[] = {0, 0, 1, 3, 4, 5, 8, 40}; static const char *w[] = {"blocks of another key, no checksum", "blocks of another key, no checksum", "blocks of another key, checksum cut to one byte", "blocks of another key, checksum cut", "blocks of another key", "blocks of another key, checksum too long", "blocks of another key, checksum too long", "blocks of another key, checksum too long"};
    uint32_t i = choose(8, "checksum length"); *what = w[i];
    b.bytes = key6(o8, b.store.u8, &p8, l[i]); b.used = b.bytes.size();
    return b;
}

static Box make_jks(bool hostile)
{
    Box b; b.type = JKS;
    b.store = pick_password(); if (choose(3, "same password")) b.key = pick_password(); else b.key = b.store;
    Bytes o; uint32_t n = extreme == 5 ? many(20) : choose(4, "entries") + (hostile ? 0 : choose(2, "one"));
    auto put = [&](const Bytes &x) { o.insert(o.end(), x.begin(), x.end()); };
    auto field = [&](const Bytes &x, const char *what) { b.fields.push_back({o.size(), x.size(), what}); put(x); };
    auto putcert = [&](const Bytes &c) { field(be16(5), "type length"); put(str("X.509")); field(be32(c.size()), "certificate length"); put(c); b.certs.push_back(c); };
    put(choose(2, "jceks") ? Bytes{0xfe, 0xed, 0xfe, 0xed} : Bytes{0xce, 0xce, 0xce, 0xce}); put(be32(2)); field(be32(n), "entry count");
    for (uint32_t i = 0; i < n; i++)
    {
        bool key = extreme == 5 ? choose(40, "entry") == 39 : choose(3, "entry") != 2;
        field(be32(key ? 1 : 2), "entry tag");
        Bytes name = fill("alias", extreme == 1 ? 32768 + choose(32768, "alias length") : choose(4, "alias") ? choose(12, "alias length") : 300); for (auto &c : name) c = (unsigned char) ('a' + c % 26);
        field(be16(name.size()), "alias length"); put(name);
        put(cat({be32(0x18a), be32(choose(0xffffffffu, "date"))}));
        if (!key) { putcert(pick_cert()); continue; }
        b.has_key_entry = true;
        Key k1, k2; bool two; pick_pair(&k1, &k2, &two);
        Bytes p8 = pkcs8_with_attr(k1, two ? &k2 : nullptr);
        if (hostile && choose(2, "mangle")) p8 = der_mangle(p8);
        b.keys.push_back(pkcs8(k1)); if (two) b.keys.push_back(pkcs8(k2));
        const char *how = "1.3.6.1.4.1.42.2.17.1.1"; Bytes sealed = jks_protect(p8, b.key.u16, fill("salt", 20));
        if (hostile)
            switch (choose(8, "protection"))
            {
            case 5: how = "1.3.6.1.4.1.42.2.19.1"; b.unreadable = true; break;           // JCE's own protection: not supported
            case 6: how = "1.2.3.4.5"; b.unreadable = true; break;
            case 7: sealed.resize(choose(61, "sealed size")); break;
            default: break;
            }
        Bytes prot = seq({seq({oid(how), null()}), octets(sealed)});
        field(be32(prot.size()), "key length"); b.sealed.push_back({o.size() + prot.size() - sealed.size(), sealed.size(), "key"}); put(prot);
        uint32_t chain = extreme == 2 && choose(3, "long chain") ? many(60) : choose(4, "chain"); field(be32(chain), "chain count");
        for (uint32_t c = 0; c < chain; c++) putcert(pick_cert());
    }
    put(jks_digest(o, b.store.u16));
    b.bytes = o; b.used = o.size();
    return b;
}

static Bytes pbes2_parts(const Bytes &plain, const Bytes &pw, bool implicit0, bool odd)
{
    Bytes x = odd && choose(2, "odd encryption") ? odd_pbes2(plain, pw) : pbes2(plain, pw, fill("salt", 1 + choose(32, "salt")), 1 + (int) choose(6, "iterations"), fill("iv", 8), choose(2, "dke") ? pick_sbox() : Bytes(default_sbox, default_sbox + 64), choose(2, "keylen") != 0);
    if (!implicit0) return x;
    const unsigned char *p = x.data(); Der s, a, c; der_next(p, x.data() + x.size(), &s); p = s.p; der_next(p, s.p + s.len, &a); der_next(p, s.p + s.len, &c);
    return cat({Bytes(a.p - a.hdr, a.p + a.len), tlv(0x80, Bytes(c.p, c.p + c.len))});
}

static void bags(Box &b, std::vector<Bytes> *out, int depth, bool hostile)
{
    const char *B = "1.2.840.113549.1.12.10.1.";
    uint32_t n = extreme == 5 && !depth ? many(20) : choose(4, "bags");
    for (uint32_t i = 0; i < n; i++)
    {
        Bytes attr; if (choose(3, "bag attribute") == 2) attr = setv({seq({oid("1.2.840.113549.1.9.21"), setv({octets(extreme == 1 ? Bytes(66000, 7) : fill("id", 4))})})});
        switch (extreme == 5 && choose(30, "a key") ? 3 + choose(3, "bag") : choose(6, "bag"))
        {
        case 0: case 1: case 2:
        {
            Key k; if (choose(3, "class") == 2) make_key(&k, first_custom, (int) curves.size()); else make_key(&k, 0, choose(3, "big") == 2 ? 10 : 3);
            bool shroud = choose(2, "shrouded") != 0;
            b.keys.push_back(pkcs8(k));
            Bytes p8 = pkcs8(k); if (hostile && choose(2, "mangle")) p8 = der_mangle(p8);
            out->push_back(seq({oid((std::string(B) + (shroud ? "2" : "1")).c_str()), tlv(0xa0, shroud ? pbes2_parts(p8, b.store.u8, false, hostile) : p8), attr}));
            break;
        }
        case 3: { Bytes c = pick_cert(); b.certs.push_back(c); out->push_back(seq({oid((std::string(B) + "3").c_str()), tlv(0xa0, seq({oid("1.2.840.113549.1.9.22.1"), tlv(0xa0, octets(c))})), attr})); break; }
        case 4: if (depth < (extreme == 2 ? 12 : 3)) { std::vector<Bytes> in; bags(b, &in, depth + 1, hostile); out->push_back(seq({oid((std::string(B) + "6").c_str()), tlv(0xa0, seqv(in)), attr})); } break;
        default: out->push_back(seq({oid((std::string(B) + "5").c_str()), tlv(0xa0, seq({oid("1.2.3.4"), tlv(0xa0, octets(fill("secret", 8)))})), attr}));   // secret bag: not ours
        }
    }
}

static Box make_p12(bool hostile)
{
    Box b; b.type = P12;
    b.store = pick_password();
    for (int tries = 0;; tries++)
    {
        b.keys.clear(); b.certs.clear();
        std::vector<Bytes> safes; uint32_t n = 1 + choose(3, "safes");
        for (uint32_t i = 0; i < n; i++)
        {
            std::vector<Bytes> in; bags(b, &in, 0, hostile); Bytes content = seqv(in);
            if (choose(3, "encrypted safe") == 2) safes.push_back(seq({oid("1.2.840.113549.1.7.6"), tlv(0xa0, seq({integer(0), seq({oid(OID_DATA), pbes2_parts(content, b.store.u8, true, hostile)})}))}));
            else safes.push_back(seq({oid(OID_DATA), tlv(0xa0, octets(content))}));
        }
        if (b.keys.empty() && b.certs.empty()) { if (tries < 20) continue; b.certs.push_back(pool[0]); safes.push_back(seq({oid(OID_DATA), tlv(0xa0, octets(seqv({seq({oid("1.2.840.113549.1.12.10.1.3"), tlv(0xa0, seq({oid("1.2.840.113549.1.9.22.1"), tlv(0xa0, octets(pool[0]))}))})})))})); }
        Bytes auth = seqv(safes);
        if (hostile && choose(3, "mangle structure") == 2) auth = der_mangle(auth);
        static const char *hs[] = {"gost", "sha1", "sha256"}, *os[] = {nullptr, "1.3.14.3.2.26", "2.16.840.1.101.3.4.2.1"};
        uint32_t h = choose(3, "mac hash"); Bytes salt = fill("mac salt", 1 + choose(24, "mac salt length")); int it = 1 + (int) choose(5, "mac iterations");
        Bytes bmp = cat({b.store.u16, {0, 0}});
        Bytes mk = hmacx(hs[h], p12_kdf(hs[h], bmp, salt, 3, it), auth);
        Bytes md = seq({seq({seq({oid(h ? os[h] : OID_HASH), null()}), octets(mk)}), octets(salt), it == 1 && choose(2, "default") ? Bytes() : integer(it)});
        b.bytes = seq({integer(3), seq({oid(OID_DATA), tlv(0xa0, octets(auth))}), md});
        b.used = b.bytes.size();
        return b;
    }
}

Box make(Type t, bool hostile)
{
    Uncounted q;
    extreme = extremes && !hostile && choose(50, "extreme") == 49 ? 1 + (int) choose(5, "which") : 0;
    if (extreme) probe("container of unusual size");
    return t == KEY6 ? make_key6(hostile) : t == JKS ? make_jks(hostile) : make_p12(hostile);
}

static Bytes slurp(const char *f) { std::ifstream i(f, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(i), {}); }
Box fixture(int i)
{
    Box b; b.type = i == 0 ? KEY6 : i == 1 ? JKS : P12;
    b.bytes = slurp(i == 0 ? REPO_TESTS "/Key-6.dat" : i == 1 ? REPO_TESTS "/key.jks" : REPO_TESTS "/Key-6.pfx");
    b.store.u8 = str(i == 0 ? "tect4" : i == 1 ? "123456" : "testplat2021"); b.key.u8 = str("qwerty");
    b.used = b.bytes.size(); b.slow = i != 1; b.has_key_entry = true; b.fixture = true;
    static const char *k0[] = {"1448d7f5b516509a0589c87965700575241bd522d044ebb94bb045d5899dd998", "6bf1b969a5c865ff8acddf340bbc3d9141446757956b44574f1c1f0e26ed3b98"}, *k1[] = {"1448d7f5b516509a0589c87965700575241bd522d044ebb94bb045d5899dd998", "6bf1b969a5c865ff8acddf340bbc3d9141446757956b44574f1c1f0e26ed3b98"}, *k2[] = {"69e0e0a6fe3a2bf6f1a0e09241d7ea2c7fe35aa3e1b4874c66a9e505808a3b67", "86424dab8ff934f29ccbbd29e1de5e61030231446bcd6c80ef011a9da864130d"}, *c1[] = {"ec3524a1229cb318961fd394dbe3b024946f979c9f5f4390497fad7fe4f73de9", "e44fa71b6462fb8d1f3cd2907284aa22a33805d580e43cf9d78605de0345309a", "db2c40699be0d724a394ff03d87dfaf6766e083f721c8bcd8179bf515381d08b"};
    for (int j = 0; j < 2; j++) b.keys.push_back(unhex((i == 0 ? k0 : i == 1 ? k1 : k2)[j]));
    if (i == 1) for (int j = 0; j < 3; j++) b.certs.push_back(unhex(c1[j]));
    return b;
}

std::string differs(sut::KeyStore *ks, const Box &b)
{
    Quiet q;
    if (!ks) return "no store was handed back";
    size_t nk = sut::KeyStoreKeyNum(ks), nc = sut::KeyStoreCertNum(ks);
    if (nk != b.keys.size() || nc != b.certs.size()) return "store has " + std::to_string(nk) + " keys and " + std::to_string(nc) + " certificates instead of " + std::to_string(b.keys.size()) + " and " + std::to_string(b.certs.size());
    for (size_t i = 0; i < nk; i++)
    {
        const EVP_PKEY *p = sut::KeyStoreGetKey(ks, i);
        if (!p) return "key " + std::to_string(i) + " is missing";
        Bytes e = export_priv(p); if (b.fixture) e = sha256(e);
        if (e != b.keys[i]) return "key " + std::to_string(i) + " is " + hex(e) + " instead of " + hex(b.keys[i]);
    }
    for (size_t i = 0; i < nc; i++)
    {
        const X509 *x = sut::KeyStoreGetCert(ks, i);
        if (!x) return "certificate " + std::to_string(i) + " is missing";
        unsigned char *o = nullptr; int n = i2d_X509((X509 *) x, &o); Bytes e(o, o + (n > 0 ? n : 0)); OPENSSL_free(o); if (b.fixture) e = sha256(e);
        if (e != b.certs[i]) return "certificate " + std::to_string(i) + " differs";
    }
    if (sut::KeyStoreGetKey(ks, nk) || sut::KeyStoreGetCert(ks, nc)) return "an entry beyond the end was handed out";
    return "";
}

int parse(const Box &b, const Bytes &data, const Bytes &spw, const Bytes &kpw, sut::KeyStore **ks, int guard)
{
    Guarded d(data, guard), s(spw, (int) choose(2, "guard")), k(kpw, (int) choose(2, "guard"));
    switch (b.type)
    {
    case KEY6: return sut::parseKey6(d.p, d.n, (char *) s.p, s.n, ks);
    case JKS: return sut::parseJKS(d.p, d.n, (char *) s.p, s.n, (char *) k.p, k.n, ks);
    default: return sut::parsePKCS12(d.p, d.n, (char *) s.p, s.n, ks);
    }
}
int read_bio(const Box &b, BIO *io, const Bytes &spw, const Bytes &kpw, sut::KeyStore **ks)
{
    Guarded s(spw, (int) choose(2, "guard")), k(kpw, (int) choose(2, "guard"));
    switch (b.type)
    {
    case KEY6: return sut::readKey6_bio(io, (char *) s.p, s.n, ks);
    case JKS: return sut::readJKS_bio(io, (char *) s.p, s.n, (char *) k.p, k.n, ks);
    default: return sut::readPKCS12_bio(io, (char *) s.p, s.n, ks);
    }
}
int read_file(const Box &b, FILE *f, const Bytes &spw, const Bytes &kpw, sut::KeyStore **ks)
{
    Guarded s(spw, (int) choose(2, "guard")), k(kpw, (int) choose(2, "guard"));
    switch (b.type)
    {
    case KEY6: return sut::readKey6(f, (char *) s.p, s.n, ks);
    case JKS: return sut::readJKS(f, (char *) s.p, s.n, (char *) k.p, k.n, ks);
    default: return sut::readPKCS12(f, (char *) s.p, s.n, ks);
    }
}
}
