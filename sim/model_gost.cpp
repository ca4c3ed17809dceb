#include "model.h"
namespace model {

const unsigned char default_sbox[64] = {   // DKE No. 1
    0xa9, 0xd6, 0xeb, 0x45, 0xf1, 0x3c, 0x70, 0x82, 0x80, 0xc4, 0x96, 0x7b, 0x23, 0x1f, 0x5e, 0xad,
    0xf6, 0x58, 0xeb, 0xa4, 0xc0, 0x37, 0x29, 0x1d, 0x38, 0xd9, 0x6b, 0xf0, 0x25, 0xca, 0x4e, 0x17,
    0xf8, 0xe9, 0x72, 0x0d, 0xc6, 0x15, 0xb4, 0x3a, 0x28, 0x97, 0x5f, 0x0b, 0xc1, 0xde, 0xa3, 0x64,
    0x38, 0xb5, 0x64, 0xea, 0x2c, 0x17, 0x9f, 0xd0, 0x12, 0x3e, 0x6d, 0xb8, 0xfa, 0xc5, 0x79, 0x04};

Sbox unpack(const unsigned char *p)
{
    Sbox s;
    for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) s.k[r][i] = (p[r * 8 + i / 2] >> (i & 1 ? 0 : 4)) & 15;
    return s;
}
uint64_t le64(const unsigned char *p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
void put64(unsigned char *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (unsigned char) (v >> (8 * i)); }

void Gost::init(const Sbox &sb)
{
    s = sb;
    for (int b = 0; b < 4; b++) for (int v = 0; v < 256; v++)
    {
        uint32_t x = (uint32_t) (s.k[2 * b][v & 15] | s.k[2 * b + 1][v >> 4] << 4) << (8 * b);
        t[b][v] = x << 11 | x >> 21;
    }
}
void Gost::setkey(const unsigned char *k) { for (int i = 0; i < 8; i++) key[i] = (uint32_t) k[4 * i] | (uint32_t) k[4 * i + 1] << 8 | (uint32_t) k[4 * i + 2] << 16 | (uint32_t) k[4 * i + 3] << 24; }
uint32_t Gost::f(uint32_t x) const { return t[0][x & 255] ^ t[1][x >> 8 & 255] ^ t[2][x >> 16 & 255] ^ t[3][x >> 24]; }
void Gost::enc(const unsigned char *in, unsigned char *out) const
{
    uint64_t v = le64(in);
    uint32_t a = (uint32_t) v, b = (uint32_t) (v >> 32);
    for (int r = 0; r < 32; r++)
    {
        uint32_t k = r < 24 ? key[r & 7] : key[7 - (r & 7)];
        uint32_t n = b ^ f(a + k);
        b = a; a = n;
    }
    // no swap after the last round
    put64(out, (uint64_t) a << 32 | b);
}
void Gost::mac16(unsigned char *st) const
{
    uint64_t v = le64(st);
    uint32_t a = (uint32_t) v, b = (uint32_t) (v >> 32);
    for (int r = 0; r < 16; r++) { uint32_t n = b ^ f(a + key[r & 7]); b = a; a = n; }
    put64(st, (uint64_t) b << 32 | a);
}

Bytes cfb(const unsigned char *key, const unsigned char *sbox, const unsigned char *iv, const Bytes &in, bool enc)
{
    Gost g; g.init(unpack(sbox)); g.setkey(key);
    unsigned char reg[8], gam[8];
    memcpy(reg, iv, 8);
    Bytes out(in.size());
    for (size_t i = 0; i < in.size(); i++)
    {
        if (i % 8 == 0) g.enc(reg, gam);
        out[i] = in[i] ^ gam[i % 8];
        reg[i % 8] = enc ? out[i] : in[i];
    }
    return out;
}

Bytes mac(const unsigned char *key, const unsigned char *sbox, const Bytes &in)
{
    Gost g; g.init(unpack(sbox)); g.setkey(key);
    unsigned char st[8] = {0};
    size_t n = (in.size() + 7) / 8;
    if (n == 1) n = 2;
    for (size_t i = 0; i < n; i++)
    {
        for (size_t j = 0; j < 8; j++) if (8 * i + j < in.size()) st[j] ^= in[8 * i + j];
        g.mac16(st);
    }
    return Bytes(st, st + 4);
}

// ---- GOST 34.311
typedef unsigned char B32[32];
static void psi(B32 y)   // one step of the linear feedback register over 16-bit words, y[0..1] is word 1
{
    unsigned char n[2];
    for (int b = 0; b < 2; b++) n[b] = y[b] ^ y[2 + b] ^ y[4 + b] ^ y[6 + b] ^ y[24 + b] ^ y[30 + b];
    memmove(y, y + 2, 30);
    y[30] = n[0]; y[31] = n[1];
}
static void A(B32 y)     // y4|y3|y2|y1 -> (y1^y2)|y4|y3|y2, y1 is the first 8 bytes
{
    unsigned char t[8];
    for (int i = 0; i < 8; i++) t[i] = y[i] ^ y[8 + i];
    memmove(y, y + 8, 24);
    memcpy(y + 24, t, 8);
}
static void P(const B32 w, B32 k) { for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) k[i + 4 * j] = w[8 * i + j]; }
static const B32 C3 = {0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00,
                       0x00, 0xff, 0xff, 0x00, 0xff, 0x00, 0x00, 0xff, 0xff, 0x00, 0x00, 0x00, 0xff, 0xff, 0x00, 0xff};
static void chi(Gost &g, B32 H, const unsigned char *M)
{
    B32 U, V, W, K, S;
    memcpy(U, H, 32); memcpy(V, M, 32);
    for (int i = 0; i < 4; i++)
    {
        if (i)
        {
            A(U);
            if (i == 2) for (int j = 0; j < 32; j++) U[j] ^= C3[j];
            A(V); A(V);
        }
        for (int j = 0; j < 32; j++) W[j] = U[j] ^ V[j];
        P(W, K);
        g.setkey(K);
        g.enc(H + 8 * i, S + 8 * i);
    }
    for (int i = 0; i < 12; i++) psi(S);
    for (int j = 0; j < 32; j++) S[j] ^= M[j];
    psi(S);
    for (int j = 0; j < 32; j++) S[j] ^= H[j];
    for (int i = 0; i < 61; i++) psi(S);
    memcpy(H, S, 32);
}
static Bytes hash_with(Gost &g, const unsigned char *m, size_t n)
{
    B32 H = {0}, S = {0}, L = {0}, B;
    uint64_t bits = (uint64_t) n * 8;
    put64(L, bits);
    size_t blocks = n ? (n + 31) / 32 : 1;   // the implementation's convention: an empty message is one zero block
    for (size_t i = 0; i < blocks; i++)
    {
        memset(B, 0, 32);
        size_t c = n - 32 * i < 32 ? n - 32 * i : 32;
        if (n) memcpy(B, m + 32 * i, c);
        chi(g, H, B);
        unsigned carry = 0;
        for (int j = 0; j < 32; j++) { unsigned x = S[j] + B[j] + carry; S[j] = (unsigned char) x; carry = x >> 8; }
    }
    chi(g, H, L);
    chi(g, H, S);
    return Bytes(H, H + 32);
}
Bytes hash(const Bytes &m, const unsigned char *sbox) { Gost g; g.init(unpack(sbox)); return hash_with(g, m.data(), m.size()); }
Bytes Hash::fin() const { return hash(m, sbox.data()); }

static Bytes hmac_with(Gost &g, const Bytes &key, const Bytes &m)
{
    Bytes k = key;
    if (k.size() > 32) k = hash_with(g, k.data(), k.size());
    k.resize(32);
    Bytes i(32), o(32);
    for (int j = 0; j < 32; j++) { i[j] = k[j] ^ 0x36; o[j] = k[j] ^ 0x5c; }
    i.insert(i.end(), m.begin(), m.end());
    Bytes h = hash_with(g, i.data(), i.size());
    o.insert(o.end(), h.begin(), h.end());
    return hash_with(g, o.data(), o.size());
}
Bytes hmac(const Bytes &key, const Bytes &m, const unsigned char *sbox) { Gost g; g.init(unpack(sbox)); return hmac_with(g, key, m); }
Bytes pbkdf2(const Bytes &pass, const Bytes &salt, int iter, size_t len)
{
    Gost g; g.init(unpack(default_sbox));
    Bytes out;
    for (uint32_t blk = 1; out.size() < len; blk++)
    {
        Bytes s = salt;
        for (int i = 3; i >= 0; i--) s.push_back((unsigned char) (blk >> (8 * i)));
        Bytes u = hmac_with(g, pass, s), t = u;
        for (int i = 1; i < iter; i++) { u = hmac_with(g, pass, u); for (size_t j = 0; j < t.size(); j++) t[j] ^= u[j]; }
        out.insert(out.end(), t.begin(), t.end());
    }
    out.resize(len);
    return out;
}

Rbg::Rbg(const Bytes &seed, int64_t time)
{
    g.init(unpack(default_sbox));
    g.setkey(seed.data());
    s = le64(&seed[32]);
    unsigned char d[8];
    put64(d, (uint64_t) time);
    g.enc(d, d);
    I = le64(d);
}
unsigned char Rbg::byte()
{
    unsigned char r = 0, b[8];
    for (int j = 0; j < 8; j++)
    {
        put64(b, I ^ s); g.enc(b, b);
        uint64_t x = le64(b);
        put64(b, x ^ I); g.enc(b, b);
        s = le64(b);
        r |= (unsigned char) ((x & 1) << j);
    }
    return r;
}
}
