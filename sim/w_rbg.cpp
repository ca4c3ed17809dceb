// C01, C02: the random generator under concurrency and faults.
#include "sim.h"
#include "model.h"
#include <openssl/engine.h>
#include <openssl/err.h>
#include <set>
#include <memory>
using namespace sim;

namespace {

enum Kind { DRAW, STATUS, SEED, ADD, CLEANUP };
struct Op {
    Kind k; size_t n; int via;             // via: 0 bytes, 1 pseudorand, 2 RAND_bytes, 3 RAND_priv_bytes
    int thread; uint64_t inv = 0, resp = 0; int rc = 0; Bytes out;
    bool faulted = false;                  // a fault was injected into this very call
    int seed = -1, nseeds = 0;             // seed delivered during this call
    std::vector<int64_t> before, after;    // clock readings during this call, before and after the seed
};

const RAND_METHOD *meth;
Op *cur_op[8];                             // by thread id + 1

void on_seam(int what, int64_t a)
{
    Op *o = cur_op[self() + 1];
    if (!o) return;
    if (what == 1) { o->seed = (int) a; o->nseeds++; }
    else if (what == 2) o->faulted = true;
    else if (what == 3) (o->nseeds ? o->after : o->before).push_back(a);
}

void run_op(Op &o)
{
    cur_op[self() + 1] = &o;
    o.inv = seqno();
    Guarded buf(Bytes(o.n, 0xEE), (int) (o.n & 1));
    switch (o.k)
    {
    case DRAW:
        o.rc = o.via == 0 ? meth->bytes(buf.p, (int) o.n) : o.via == 1 ? meth->pseudorand(buf.p, (int) o.n)
             : o.via == 2 ? RAND_bytes(buf.p, (int) o.n) : RAND_priv_bytes(buf.p, (int) o.n);
        o.out.assign(buf.p, buf.p + o.n);
        break;
    case STATUS: o.rc = o.via >= 2 ? RAND_status() : meth->status(); break;
    case SEED: { Bytes b(o.n, 0x5a); o.rc = meth->seed(b.data(), (int) o.n); break; }
    case ADD: { Bytes b(o.n, 0xa5); o.rc = meth->add(b.data(), (int) o.n, (double) o.n); break; }
    case CLEANUP: meth->cleanup(); o.rc = 1; break;
    }
    o.resp = seqno();
    cur_op[self() + 1] = nullptr;
    static const char *nm[] = {"draw", "status", "seed", "add", "cleanup"};
    ev("%s(%zu) via %d -> %d %s", nm[o.k], o.n, o.via, o.rc, o.k == DRAW && o.rc == 1 ? hex(o.out.data(), std::min<size_t>(o.out.size(), 100)).c_str() : "");
}

struct Streams {
    std::vector<Bytes> cache; std::vector<std::unique_ptr<model::Rbg>> g;
    void add(const Bytes &seed, int64_t t) { Bytes s = seed; s.resize(40); g.emplace_back(new model::Rbg(s, t)); cache.emplace_back(); }
    unsigned char at(int e, size_t off) { while (cache[e].size() <= off) cache[e].push_back(g[e]->byte()); return cache[e][off]; }
};

// is there an order of the operations, consistent with real time, that the model generator explains?
struct Lin {
    std::vector<Op> &ops; Streams &st; std::set<std::tuple<uint64_t, int, size_t>> seen; long nodes = 0;
    uint64_t best = 0;
    bool dfs(uint64_t done, int epoch, size_t off)
    {
        if (done == (1ull << ops.size()) - 1) return true;
        if (__builtin_popcountll(done) > __builtin_popcountll(best)) best = done;
        if (!seen.insert({done, epoch, off}).second) return false;
        if (++nodes > 400000) discard("linearization search too large");
        uint64_t minresp = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && ops[i].resp < minresp) minresp = ops[i].resp;
        for (size_t i = 0; i < ops.size(); i++)
        {
            if (done >> i & 1) continue;
            Op &o = ops[i];
            if (o.inv > minresp) continue;
            uint64_t d2 = done | 1ull << i;
            int e2 = epoch; size_t f2 = off;
            switch (o.k)
            {
            case DRAW: case STATUS:
                if (o.seed >= 0) { if (epoch >= 0) continue; e2 = o.seed; f2 = 0; }   // seeding only when unseeded
                if (o.rc == 1)
                {
                    if (e2 < 0) continue;
                    if (o.k == DRAW)
                    {
                        bool ok = true;
                        for (size_t j = 0; j < o.n && ok; j++) ok = st.at(e2, f2 + j) == o.out[j];
                        if (!ok) continue;
                        f2 += o.n;
                    }
                    if (dfs(d2, e2, f2)) return true;
                }
                else
                {
                    if (!o.faulted) continue;            // failure without a fault
                    if (dfs(d2, e2, f2)) return true;
                    if (o.seed >= 0 && dfs(d2, epoch, off)) return true;
                }
                break;
            case SEED: case ADD: if (dfs(d2, epoch, off)) return true; break;
            case CLEANUP:
                if (dfs(d2, -1, 0)) return true;
                if (o.faulted && dfs(d2, epoch, off)) return true;
                break;
            }
        }
        return false;
    }
};

// every operation, with every plausible assignment of clock readings to seedings
bool explained(std::vector<Op> &ops, std::string *why)
{
    if (ops.size() > 60) discard("history too long");
    size_t ne = seedsrc.out.size();
    std::vector<std::vector<int64_t>> cand(ne);
    for (Op &o : ops)
        if (o.seed >= 0)
        {
            cand[o.seed] = o.after;
            for (size_t i = o.before.size(); i-- > 0;) cand[o.seed].push_back(o.before[i]);
        }
    for (auto &c : cand) if (c.empty()) c.push_back(0);
    std::vector<size_t> idx(ne, 0);
    for (int attempt = 0; attempt < 24; attempt++)
    {
        Streams s;
        for (size_t i = 0; i < ne; i++) s.add(seedsrc.out[i], cand[i][idx[i]]);
        Lin l{ops, s};
        if (l.dfs(0, -1, 0)) return true;
        if (attempt == 0)
            for (size_t i = 0; i < ops.size(); i++)
                if (!(l.best >> i & 1)) *why += " t" + std::to_string(ops[i].thread) + ":" + std::to_string(ops[i].k) + "/" + std::to_string(ops[i].rc);
        size_t i = 0;
        for (; i < ne; i++) { if (++idx[i] < cand[i].size()) break; idx[i] = 0; }
        if (i == ne) return false;
    }
    return false;
}

int64_t pick_time()
{
    switch (choose(6, "time"))
    {
    case 0: return 1700000000;
    case 1: return 0;
    case 2: return (int64_t) choose(0xffffffffu, "t32");
    case 3: return (int64_t) 1 << 33;
    case 4: return -1000;
    default: return (int64_t) choose(0xffffffffu, "tlo") << 20 | 12345;
    }
}

void setup()
{
    sut::load_engine();
    meth = ENGINE_get_RAND(sut::e);
    if (!meth) { fprintf(stderr, "engine has no RAND method\n"); _exit(77); }
    ENGINE_set_default_RAND(sut::e);
}

// large draws: sizes around what an implementation might buffer or work off at once
size_t large()
{
    static const uint32_t around[] = {128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768};
    uint32_t a = around[choose(9, "size")];
    return a - 9 + choose(choose(3, "near") ? 20 : a, "near");
}

void c01(bool big)
{
    seam_cb = on_seam;
    clk.on = true; clk.now = pick_time(); clk.jump = chance(1, 3, "jumpy");
    seedsrc.seed = choose(0xffffffffu, "seedseed");
    uint32_t nt = 2 + strat(3, "threads");
    static const uint32_t styles[12] = {1, 2, 3, 4, 9, 10, 11, 12, 6, 7, 15, 5};
    uint32_t style = big ? 8 + choose(2, "style") * 7 : styles[strat(12, "style")];
    if (!big && choose(3, "meet") == 2) style |= 16;
    bool warm = chance(1, 4, "warm");
    std::vector<std::vector<Op>> plan(nt);
    for (uint32_t t = 0; t < nt; t++)
    {
        uint32_t n = 1 + choose(4, "nops");
        for (uint32_t i = 0; i < n; i++)
        {
            Op o; o.k = chance(1, 5, "status") ? STATUS : DRAW; o.thread = (int) t;
            o.n = o.k == STATUS ? 0 : big && choose(3, "large") ? large() : choose(12, "big") == 11 ? 40 + choose(60, "size") : choose(17, "size");
            o.via = (int) choose(4, "via");
            plan[t].push_back(o);
        }
    }
    Op w; w.k = DRAW; w.n = 8; w.via = 0; w.thread = -1;
    if (warm) run_op(w);
    std::vector<std::function<void()>> fns;
    for (uint32_t t = 0; t < nt; t++) fns.push_back([&plan, t] { for (Op &o : plan[t]) run_op(o); });
    set_step_budget(40000000);
    set_op("concurrent draws");
    run_threads(fns, style);
    Op z; z.k = DRAW; z.n = 16; z.via = (int) choose(4, "via"); z.thread = -1;
    run_op(z);
    std::vector<Op> ops;
    if (warm) ops.push_back(w);
    for (auto &p : plan) for (Op &o : p) ops.push_back(o);
    ops.push_back(z);
    Quiet q;
    for (Op &o : ops) SIM_CHECK(o.rc == 1, "draw-failed", "a draw or status query failed although nothing was wrong");
    SIM_CHECK(seedsrc.delivered == 1, "seeded-not-once", "the generator was seeded %ld times", seedsrc.delivered);
    SIM_CHECK(seedsrc.out[0].size() >= 40, "short-seed", "seeded with only %zu bytes", seedsrc.out[0].size());
    std::string why;
    SIM_CHECK(explained(ops, &why), "not-linearizable", "no order of the %zu calls explains their results as one generator stream; unexplained (thread:op/result):%s", ops.size(), why.c_str());
    probe(warm ? "threads found the generator seeded" : "threads raced for first use");
}
void run_c01() { c01(false); }
void run_c01l() { c01(true); }

void run_c02()
{
    seam_cb = on_seam;
    clk.on = true; clk.now = pick_time(); clk.jump = chance(1, 3, "jumpy");
    seedsrc.seed = choose(0xffffffffu, "seedseed");
    lockplan.on = true;
    if (chance(1, 3, "load in run"))
    {
        // the engine is unloaded and loaded again, possibly with the lock impossible to create at first
        if (choose(4, "lock create fault")) lockplan.fail_new = 1;
        RAND_set_rand_method(nullptr);
        ENGINE_finish(sut::e);
        sut::unload(sut::e);
        fault(F_RESTART);
        sut::e = sut::dyn_load(1);
        ERR_clear_error();
        if (!sut::e)
        {
            SIM_CHECK(lockplan.fired, "load-failed", "loading failed although nothing was wrong");
            lockplan.fail_new = 0;
            sut::e = sut::dyn_load(1);
            probe("load failed for want of a lock, repeated");
        }
        SIM_CHECK(sut::e != nullptr && ENGINE_init(sut::e), "load-failed", "the engine cannot be loaded after faults stopped");
        meth = ENGINE_get_RAND(sut::e);
    }
    uint32_t nt = 1 + strat(3, "threads");
    static const uint32_t styles[8] = {2, 3, 4, 10, 11, 12, 7, 15};
    uint32_t style = styles[strat(8, "style")];
    if (choose(3, "meet") == 2) style |= 16;
    uint32_t fm = strat(7, "fault mix");   // 0 none 1 seed source 2 locks 3 both 4 lock creation 5 alloc 6 cleanup heavy
    seedsrc.per_call = fm == 1 || fm == 3 || fm == 6;
    seedsrc.per_call_den = 2 + choose(4, "seed fault rate");
    lockplan.per_call = fm == 2 || fm == 3;
    if (fm == 4) lockplan.fail_new = 1 + (int) choose(3, "lock create faults");
    std::vector<std::vector<Op>> plan(nt);
    for (uint32_t t = 0; t < nt; t++)
    {
        uint32_t n = 1 + choose(nt == 1 ? 10 : 5, "nops");
        for (uint32_t i = 0; i < n; i++)
        {
            Op o; o.thread = (int) t; o.via = (int) choose(2, "via");
            uint32_t k = choose(fm == 6 ? 12 : 10, "op");
            o.k = k < 5 ? DRAW : k < 7 ? STATUS : k == 7 ? SEED : k == 8 ? ADD : CLEANUP;
            o.n = o.k == DRAW ? choose(5, "tiny") == 4 ? choose(4, "n") : 8 + choose(12, "n") : o.k == STATUS ? 0 : 1 + choose(40, "n");
            plan[t].push_back(o);
        }
    }
    set_step_budget(40000000);
    set_op("generator history");
    if (fm == 5) arm_alloc((long) choose(4, "alloc k"), choose(2, "persist") != 0);
    if (nt == 1) { for (Op &o : plan[0]) run_op(o); }
    else
    {
        std::vector<std::function<void()>> fns;
        for (uint32_t t = 0; t < nt; t++) fns.push_back([&plan, t] { for (Op &o : plan[t]) run_op(o); });
        run_threads(fns, style);
    }
    bool allocf = fm == 5 && disarm_alloc();
    bool any_fault = allocf || lockplan.fired || seedsrc.failures;
    // faults stop
    seedsrc.per_call = false; lockplan.on = false;
    std::vector<Op> tail;
    auto after = [&](Kind k, size_t n) { Op o; o.k = k; o.n = n; o.via = (int) choose(2, "via"); o.thread = -1; run_op(o); tail.push_back(o); };
    after(DRAW, 16);
    SIM_CHECK(tail.back().rc == 1, "no-recovery", "the generator still fails after the faults stopped");
    after(STATUS, 0);
    SIM_CHECK(tail.back().rc == 1, "no-recovery", "status still fails after the faults stopped");
    long del = seedsrc.delivered;
    after(CLEANUP, 0);
    {
        Quiet q;
        for (const Bytes &s : seedsrc.out)
        {
            SIM_CHECK(s.size() >= 40, "short-seed", "seeded with only %zu bytes", s.size());
            for (size_t off = 0; off + 8 <= 40; off += 8)
                SIM_CHECK(!scan_module_for("dstu.so", &s[off], 8) && !scan_live_for(&s[off], 8), "secret-left", "part of the seed (offset %zu) is still in memory after cleanup", off);
            for (int64_t t : std::set<int64_t>(clk.returned.begin(), clk.returned.end()))
            {
                model::Rbg g(s, t); unsigned char b[8];
                model::put64(b, g.I);
                SIM_CHECK(!scan_module_for("dstu.so", b, 8), "secret-left", "generator state is still in memory after cleanup");
            }
        }
        // current value of the other half of the state: recomputed from the history when it is sequential
        if (nt == 1 && !tail.empty() && !seedsrc.out.empty())
        {
            const Op *so = nullptr; size_t drawn = 0;
            auto scan = [&](const Op &o) { if (o.seed >= 0) { so = &o; drawn = 0; } if (o.k == DRAW && o.rc == 1) drawn += o.n; };
            for (Op &o : plan[0]) scan(o);
            for (Op &o : tail) scan(o);
            if (so && !(so->after.empty() && so->before.empty()))
            {
                model::Rbg g(seedsrc.out[so->seed], so->after.empty() ? so->before.back() : so->after[0]);
                for (size_t i = 0; i < drawn; i++) g.byte();
                unsigned char b[8]; model::put64(b, g.s);
                SIM_CHECK(!scan_module_for("dstu.so", b, 8), "secret-left", "generator state is still in memory after cleanup");
            }
        }
    }
    after(DRAW, 16);
    SIM_CHECK(tail.back().rc == 1, "no-recovery", "the generator fails after cleanup");
    SIM_CHECK(seedsrc.delivered == del + 1, "no-reseed", "the first draw after cleanup did not reseed (%ld -> %ld)", del, seedsrc.delivered);
    std::vector<Op> ops;
    for (auto &p : plan) for (Op &o : p) ops.push_back(o);
    if (allocf || (fm == 4 && lockplan.fired)) for (Op &o : ops) o.faulted = true;
    for (Op &o : tail) ops.push_back(o);
    Quiet q;
    std::string why;
    SIM_CHECK(explained(ops, &why), "not-explained", "no order of the calls explains their results by properly seeded generator streams; unexplained (thread:op/result):%s", why.c_str());
    if (any_fault) probe("recovered after faults");
}
}
extern const Workload wl_c01 = {"C01", setup, run_c01, 12000, 400000};
extern const Workload wl_c01l = {"C01L", setup, run_c01l, 120, 20000};
extern const Workload wl_c02 = {"C02", setup, run_c02, 12000, 400000};
