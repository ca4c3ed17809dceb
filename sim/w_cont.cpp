// C08, C09, C10: key containers read from storage that delivers pieces, fails, damages; and under failing allocations.
#include "containers.h"
#include "common.h"
#include <openssl/engine.h>
#include <openssl/err.h>
using namespace sim;
using cont::Box;

namespace {
void setup()
{
    sut::load_engine();
    RAND_set_rand_method(&rand_meth);
    model::dstu_init();
    ENGINE_set_default(sut::e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    RAND_set_rand_method(&rand_meth);
    sut::load_keylib();
    cont::init();
}

Box pick_box(int slow_den)
{
    uint32_t t = choose(7, "container");
    if (choose((uint32_t) slow_den, "slow") == (uint32_t) slow_den - 1) return choose(6, "sample") == 5 ? cont::fixture(choose(4, "which") == 3 ? 2 : 0) : cont::make(cont::KEY6);
    if (choose(12, "sample") == 11) return cont::fixture(1);
    return t < 4 ? cont::make(cont::JKS) : cont::make(cont::P12);
}

enum Source { MEM, BIO_, FILE_ };
const char *source_name[] = {"memory", "BIO", "file"};

// one read; the handle it leaves in ks is proven usable or absent
int read_box(const Box &b, const Bytes &data, int src, const Bytes &spw, const Bytes &kpw, Stream *s, int bufstyle, sut::KeyStore **ks)
{
    *ks = nullptr;
    set_op(src == MEM ? "parse container" : src == BIO_ ? "read container from BIO" : "read container from file");
    int r;
    if (src == MEM) r = cont::parse(b, data, spw, kpw, ks, bufstyle & 1);
    else if (src == BIO_)
    {
        BIO *io = nullptr; { Quiet q; io = new_bio(s); }
        r = cont::read_bio(b, io, spw, kpw, ks);
        SIM_CHECK(!s->closed, "stream-closed", "the caller's BIO was released by the reader");
        Quiet q; BIO_free(io);
    }
    else
    {
        FILE *f = nullptr; { Quiet q; f = new_file(s, bufstyle); }
        r = cont::read_file(b, f, spw, kpw, ks);
        SIM_CHECK(!s->closed, "stream-closed", "the caller's file was closed by the reader");
        Quiet q; fclose(f);
    }
    SIM_CHECK(r == 0 || r == 1, "bad-result", "reading a %s container returned %d", cont::type_name[b.type], r);
    if (!r && *ks)
    {
        set_op("use of the handle left behind by a failed read");
        sut::KeyStoreKeyNum(*ks);                      // a released store is caught here
        sut::KeyStoreFree(*ks); *ks = nullptr;
    }
    return r;
}

// ---------------------------------------------------------------- C08
void run_c08()
{
    struct Held { Box b; sut::KeyStore *ks; };
    std::vector<Held> held;
    cont::extremes = true;
    uint32_t rounds = 1 + choose(3, "containers");
    for (uint32_t i = 0; i < rounds; i++)
    {
        Box b = pick_box(60);
        set_step_budget(2000000000);
        int src = (int) choose(3, "source"), bufstyle = (int) choose(4, "buffering");
        Stream s; s.data = b.bytes; s.style = (int) choose(3, "delivery");
        if (s.style) fault(F_SHORT_READ);
        bool must_fail = false, may_fail = false; const char *what = "intact";
        if (src != MEM)
            switch (choose(6, "storage"))
            {
            case 1: s.err_at = (long) strat((uint32_t) b.used, "error at"); must_fail = true; what = "read error"; break;
            case 2: s.eof_at = (long) strat((uint32_t) b.used, "end at"); must_fail = true; what = "premature end"; break;
            case 3: s.retry_at = (long) strat((uint32_t) b.used, "would block at"); s.retry_once = choose(2, "once") != 0; (src == FILE_ && s.retry_once ? may_fail : must_fail) = true; what = "would block"; break;   // stdio itself reads on
            case 4: s.err_at = (long) b.used; may_fail = true; what = "read error after the last byte"; break;
            default: break;
            }
        else if (choose(3, "cut") == 2)
        {
            fault(F_TRUNCATE); s.data.resize(strat((uint32_t) b.used, "cut at")); must_fail = true; what = "premature end";
        }
        ev("%s of %zu bytes from %s, %s", cont::type_name[b.type], b.bytes.size(), source_name[src], what);
        sut::KeyStore *ks;
        int r = read_box(b, s.data, src, b.store.u8, b.key.u8, &s, bufstyle, &ks);
        ERR_clear_error();
        if (must_fail && src != MEM && !s.faulted && r)    // the fault was never reached: the reader did not look at everything
            violate("unread", "a %s container was accepted without reading its last %zu bytes", cont::type_name[b.type], b.used - s.pos);
        if (must_fail)
        {
            SIM_CHECK(!r, "accepted-damaged", "a %s container was accepted from a %s although: %s", cont::type_name[b.type], source_name[src], what);
            probe(what);
        }
        else if (!may_fail) SIM_CHECK(r, "rejected-valid", "a %s container cannot be read from %s (delivery %d)", cont::type_name[b.type], source_name[src], s.style);
        if (!r && (must_fail || may_fail))
        {
            Stream h; h.data = b.bytes; h.style = (int) choose(3, "delivery");
            src = (int) choose(3, "source");
            r = read_box(b, b.bytes, src, b.store.u8, b.key.u8, &h, (int) choose(4, "buffering"), &ks);
            SIM_CHECK(r, "rejected-valid", "a %s container cannot be read from %s after a failed attempt", cont::type_name[b.type], source_name[src]);
            probe("retry on healthy storage");
        }
        std::string d = cont::differs(ks, b);
        SIM_CHECK(d.empty(), "wrong-content", "a %s container was read from %s, but %s", cont::type_name[b.type], source_name[src], d.c_str());
        if (b.fixture) probe("sample file");
        probe(b.type == cont::KEY6 ? "Key-6 read" : b.type == cont::JKS ? "JKS read" : "PKCS#12 read");
        held.push_back({b, ks});
        if (choose(3, "drop") == 0) { size_t j = choose((uint32_t) held.size(), "which"); sut::KeyStoreFree(held[j].ks); held.erase(held.begin() + (long) j); }
    }
    // stores read earlier are untouched by later reads
    for (auto &h : held)
    {
        std::string d = cont::differs(h.ks, h.b);
        SIM_CHECK(d.empty(), "wrong-content", "a store changed after it was handed out: %s", d.c_str());
        sut::KeyStoreFree(h.ks);
    }
}

// ---------------------------------------------------------------- C09
Bytes be(size_t v, size_t n) { Bytes o(n); for (size_t i = 0; i < n; i++) o[n - 1 - i] = (unsigned char) (v >> 8 * i); return o; }

uint32_t pick_length(uint32_t old, uint32_t left)
{
    switch (choose(12, "length"))
    {
    case 0: return old - 1;
    case 1: return old + 1;
    case 2: return 0;
    case 3: return 0xffffffff;
    case 4: return 0x7fffffff;
    case 5: return 0x80000000;
    case 6: return left;
    case 7: return left + 1;
    case 8: return old + 1 + choose(64, "more");
    case 9: return choose(64, "small");
    case 10: return old ^ (1u << choose(32, "bit"));
    default: return choose(0xffffffff, "any");
    }
}

// damage in storage; returns what was done
const char *damage(Bytes &d, const Box &b)
{
    const char *what = "";
    uint32_t n = choose(4, "several") == 3 ? 2 + choose(3, "number") : 1;
    for (uint32_t i = 0; i < n && !d.empty(); i++)
        switch (choose(b.fields.empty() ? 7 : 10, "damage"))
        {
        case 0: fault(F_TRUNCATE); d.resize(strat((uint32_t) d.size(), "cut at")); what = "truncated"; break;
        case 1: { fault(F_BITFLIP); uint32_t at = strat((uint32_t) d.size() * 8, "bit"); d[at / 8] ^= (unsigned char) (1 << at % 8); what = "bit flipped"; break; }
        case 2: { fault(F_BITFLIP); uint32_t at = choose((uint32_t) d.size(), "byte"); d[at] = (unsigned char) choose(256, "value"); what = "byte changed"; break; }
        case 3: { fault(F_OVERWRITE); size_t at = choose((uint32_t) d.size(), "at"), l = 1 + choose(64, "length"); Bytes r = rbytes(l, "junk"); if (choose(2, "zeros")) r.assign(l, 0); for (size_t j = 0; j < l && at + j < d.size(); j++) d[at + j] = r[j]; what = "overwritten"; break; }
        case 4: { fault(F_OVERWRITE); size_t at = choose((uint32_t) d.size(), "at"); for (size_t j = at; j < d.size(); j++) d[j] = 0; what = "torn: tail lost as zeros"; break; }
        case 5: { fault(F_SPLICE); size_t at = choose((uint32_t) d.size() + 1, "at"); Bytes r = rbytes(1 + choose(40, "length"), "junk"); d.insert(d.begin() + (long) at, r.begin(), r.end()); what = "bytes inserted"; break; }
        case 6: { fault(F_SPLICE); size_t at = choose((uint32_t) d.size(), "at"), l = 1 + choose(40, "length"); if (choose(3, "swap") == 2 && at + 2 * l <= d.size()) std::swap_ranges(d.begin() + (long) at, d.begin() + (long) (at + l), d.begin() + (long) (at + l)); else d.erase(d.begin() + (long) at, d.begin() + (long) std::min(d.size(), at + l)); what = "bytes lost or exchanged"; break; }
        default:
        {
            fault(F_LENFIELD);
            const cont::Field &f = b.fields[choose((uint32_t) b.fields.size(), "field")];
            if (f.at + f.len > d.size()) break;
            uint32_t old = 0; for (size_t j = 0; j < f.len; j++) old = old << 8 | d[f.at + j];
            Bytes v = be(pick_length(old, (uint32_t) (d.size() - f.at - f.len)), f.len); std::copy(v.begin(), v.end(), d.begin() + (long) f.at);
            what = f.what;
        }
        }
    return what;
}

// the number of rounds a damaged PKCS#12 asks for is libcrypto's business; leave out those that take forever
bool endless(const Box &b, const Bytes &d)
{
    if (b.type != cont::P12) return false;
    if (long_derivation(d)) return true;
    const unsigned char *p = d.data(), *e = p + d.size(); model::Der o, x, y;
    if (!model::der_next(p, e, &o)) return false;
    p = o.p; e = o.p + o.len;
    for (int i = 0; i < 3; i++) if (!model::der_next(p, e, &x)) return false;
    p = x.p; e = x.p + x.len;
    for (int i = 0; i < 3; i++) if (!model::der_next(p, e, &y)) return false;
    if (y.len > 4) return true;
    unsigned long v = 0; for (size_t i = 0; i < y.len; i++) v = v << 8 | y.p[i];
    return v > 40000;
}

Bytes wrong_password(const Bytes &right)
{
    Bytes w = right;
    switch (choose(6, "wrong"))
    {
    case 0: w.push_back((unsigned char) ('a' + choose(26, "char"))); break;
    case 1: if (!w.empty()) w.pop_back(); break;
    case 2: { size_t at = choose((uint32_t) w.size(), "at"); w[at] ^= (unsigned char) (1 << choose(7, "bit")); break; }
    case 3: w = cont::pick_password().u8; break;
    case 4: w = rbytes(1 + choose(20, "length"), "bytes"); break;    // not even valid UTF-8
    default: w.clear();
    }
    if (w == right) w.push_back('!');
    return w;
}

// a JKS whose seals are right but whose inside is not
Bytes reseal(const Box &b, const char **what)
{
    fault(F_RESEAL);
    Bytes d(b.bytes.begin(), b.bytes.end() - 20);
    uint32_t n = 1 + choose(2, "changes");
    *what = "resealed";
    for (uint32_t i = 0; i < n; i++)
        if (choose(2, "cut") && d.size() > 13) d.resize(12 + strat((uint32_t) d.size() - 12, "cut at"));
        else
        {
            const cont::Field &f = b.fields[choose((uint32_t) b.fields.size(), "field")];
            if (f.at + f.len > d.size()) continue;
            uint32_t old = 0; for (size_t j = 0; j < f.len; j++) old = old << 8 | d[f.at + j];
            Bytes v = be(pick_length(old, (uint32_t) (d.size() - f.at - f.len)), f.len); std::copy(v.begin(), v.end(), d.begin() + (long) f.at);
            *what = f.what;
        }
    Bytes dg = cont::jks_digest(d, b.store.u16);
    d.insert(d.end(), dg.begin(), dg.end());
    return d;
}

// a PKCS#12 whose integrity seal was taken out, the rest well-formed
bool strip_mac(Bytes &d)
{
    const unsigned char *p = d.data(), *e = p + d.size(); model::Der o, x;
    if (!model::der_next(p, e, &o)) return false;
    p = o.p; e = o.p + o.len;
    for (int i = 0; i < 2; i++) if (!model::der_next(p, e, &x)) return false;
    d = model::tlv(0x30, Bytes(o.p, x.p + x.len));
    return true;
}

void run_c09()
{
    uint32_t mode = choose(8, "mode");
    Box b = mode == 7 ? (choose(40, "slow") == 39 ? cont::make(cont::KEY6, true) : cont::make(choose(3, "kind") == 2 ? cont::P12 : cont::JKS, true)) : pick_box(60);
    set_step_budget(2000000000);
    Bytes d = b.bytes, spw = b.store.u8, kpw = b.key.u8; const char *what = "";
    bool hostile = false, must_fail = false;
    if (mode == 5 && choose(60, "forged Key-6") == 59) { fault(F_OVERWRITE); b = cont::key6_forged(&what); d = b.bytes; spw = b.store.u8; must_fail = true; }
    else switch (mode)
    {
    case 6:
        fault(F_WRONGPASS); must_fail = true;
        if (b.type == cont::JKS && b.has_key_entry && choose(2, "key password")) { kpw = wrong_password(kpw); what = "wrong key password"; }
        else { spw = wrong_password(spw); what = "wrong storage password"; }
        break;
    case 5:
        if (b.type == cont::JKS && !b.fixture && !b.sealed.empty() && choose(2, "key only"))
        {
            // one who knows the storage password only alters an encrypted key: its own check must notice
            fault(F_RESEAL); fault(F_BITFLIP);
            d.resize(d.size() - 20);
            const cont::Field &f = b.sealed[choose((uint32_t) b.sealed.size(), "which key")];
            for (uint32_t i = 0, n = 1 + choose(3, "bits"); i < n; i++) { uint32_t at = strat((uint32_t) f.len * 8, "bit"); d[f.at + at / 8] ^= (unsigned char) (1 << at % 8); }
            Bytes dg = cont::jks_digest(d, b.store.u16); d.insert(d.end(), dg.begin(), dg.end());
            what = "encrypted key altered, storage sealed again"; break;
        }
        if (b.type == cont::JKS && !b.fixture) { d = reseal(b, &what); hostile = true; break; }
        if (b.type == cont::P12 && !b.fixture)
        {
            fault(F_RESEAL); what = "seal removed";
            if (!strip_mac(d)) break;
            switch (choose(3, "and"))
            {
            case 0: fault(F_WRONGPASS); spw = wrong_password(spw); must_fail = true; what = "seal removed, wrong password"; break;
            case 1: { fault(F_SPLICE); Box o = cont::make(cont::P12); Bytes x = o.bytes; if (strip_mac(x)) d = x; what = "seal removed, other contents"; break; }
            default: { fault(F_BITFLIP); uint32_t at = strat((uint32_t) d.size() * 8, "bit"); d[at / 8] ^= (unsigned char) (1 << at % 8); what = "seal removed, bit flipped"; break; }
            }
            break;
        }
        what = damage(d, b); break;
    case 7: hostile = true; what = "strange inside"; break;
    default: what = damage(d, b);
    }
    if (endless(b, d)) discard("iteration count");
    int src = (int) choose(3, "source"), bufstyle = (int) choose(4, "buffering");
    if (b.slow) src = MEM;
    uint32_t style = choose(3, "delivery");
    ev("%s, %zu of %zu bytes, %s, from %s", cont::type_name[b.type], d.size(), b.bytes.size(), what, source_name[src]);
    int r = 0; bool first = true;
    auto op = [&] {
        sut::KeyStore *ks; Stream s; s.data = d; s.style = (int) style;
        r = read_box(b, d, src, spw, kpw, &s, bufstyle, &ks);
        if (r)
        {
            std::string x = cont::differs(ks, b);
            if (!hostile) SIM_CHECK(x.empty(), "other-content", "a %s container (%s) was accepted and %s", cont::type_name[b.type], what, x.c_str());
            else
            {
                SIM_CHECK(ks != nullptr, "other-content", "success without a store");
                SIM_CHECK(!b.unreadable || mode != 7, "partial-set", "a JKS container was accepted although a key in it has an unknown protection");
                if (ks)
                {
                    for (size_t i = 0; i < sut::KeyStoreKeyNum(ks); i++) SIM_CHECK(sut::KeyStoreGetKey(ks, i) != nullptr, "missing-entry", "a store read from a %s container (%s) lacks key %zu", cont::type_name[b.type], what, i);
                    for (size_t i = 0; i < sut::KeyStoreCertNum(ks); i++) SIM_CHECK(sut::KeyStoreGetCert(ks, i) != nullptr, "missing-entry", "a store read from a %s container (%s) lacks certificate %zu", cont::type_name[b.type], what, i);
                }
            }
            if (first) probe(hostile ? "strange but accepted" : d == b.bytes ? "unchanged" : "damage without effect");
            sut::KeyStoreFree(ks);
        }
        else if (first) probe(what);
        first = false;
    };
    if (b.slow) op(); else leak_check(op, what);
    if (must_fail) SIM_CHECK(!r, "wrong-password-accepted", "a %s container was opened: %s", cont::type_name[b.type], what);
    ERR_clear_error();
    if (!b.slow && choose(4, "again") == 3)
    {
        sut::KeyStore *ks; Stream s; s.data = b.bytes;
        r = read_box(b, b.bytes, (int) choose(3, "source"), b.store.u8, b.key.u8, &s, 0, &ks);
        if (!(hostile && mode == 7)) { SIM_CHECK(r, "rejected-valid", "the intact %s container cannot be read after a damaged copy", cont::type_name[b.type]); std::string x = cont::differs(ks, b); SIM_CHECK(x.empty(), "wrong-content", "after a damaged copy %s", x.c_str()); }
        if (r) sut::KeyStoreFree(ks);
    }
}

// ---------------------------------------------------------------- C10
void run_c10()
{
    Box b = pick_box(200);
    set_step_budget(4000000000u);
    int src = (int) choose(3, "source"), bufstyle = (int) choose(2, "buffering"); uint32_t style = choose(2, "delivery") * 2;
    int r = 0;
    auto plain = [&] {
        sut::KeyStore *ks; Stream s; s.data = b.bytes; s.style = (int) style;
        r = read_box(b, b.bytes, src, b.store.u8, b.key.u8, &s, bufstyle, &ks);
        if (r)
        {
            bool fired = disarm_alloc();
            std::string x = cont::differs(ks, b);
            SIM_CHECK(x.empty(), "wrong-content", "a %s container read from %s%s: %s", cont::type_name[b.type], source_name[src], fired ? " while an allocation failed" : "", x.c_str());
            sut::KeyStoreFree(ks);
        }
    };
    long n0 = 0;
    plain();
    SIM_CHECK(r, "rejected-valid", "a %s container cannot be read", cont::type_name[b.type]);
    ERR_clear_error();
    count_allocs(); { sut::KeyStore *ks; Stream s; s.data = b.bytes; s.style = (int) style; if (read_box(b, b.bytes, src, b.store.u8, b.key.u8, &s, bufstyle, &ks)) { n0 = alloc_seen(); sut::KeyStoreFree(ks); } }
    ERR_clear_error();
    uint32_t conv = b.type == cont::JKS && choose(12, "conversion") == 11;
    uint32_t k = conv ? choose(4, "open") : strat((uint32_t) (n0 > 0 ? n0 : 1), "allocation");
    bool persist = !conv && choose(3, "persist") == 2;
    ev("%s from %s: %s %u of %ld%s", cont::type_name[b.type], source_name[src], conv ? "conversion" : "allocation", k, n0, persist ? " and all later ones" : "");
    long bal = iconv_open_balance;
    bool fired = false;
    auto op = [&] {
        if (conv) { iconv_fail_at = iconv_opens + (long) k; plain(); iconv_fail_at = -1; }
        else { arm_alloc((long) k, persist); plain(); fired = disarm_alloc(); }
        SIM_CHECK(iconv_open_balance == bal, "leak", "a conversion descriptor stays open");
    };
    if (b.slow) op(); else leak_check(op, conv ? "a failed conversion" : "a failed allocation");
    probe(r ? "succeeded in spite of the failure" : "failed cleanly");
    (void) fired;
    ERR_clear_error();
    plain();
    SIM_CHECK(r, "rejected-valid", "a %s container cannot be read once memory is available again", cont::type_name[b.type]);
}
}
extern const Workload wl_c08 = {"C08", setup, run_c08, 4000, 200000};
extern const Workload wl_c09 = {"C09", setup, run_c09, 8000, 400000};
extern const Workload wl_c10 = {"C10", setup, run_c10, 4500, 200000};
