// Simulator core: choices, scheduler, allocation, clock, entropy, locks, streams, crash capture.
// Compiled without sanitizer instrumentation; linked with the AddressSanitizer runtime.
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <climits>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>
#include <ucontext.h>
#include <iconv.h>
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/engine.h>
#include <openssl/evp.h>
#include <sanitizer/asan_interface.h>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:"
           "allocator_may_return_null=1:use_sigaltstack=0:detect_odr_violation=0:max_malloc_fill_size=0:"
           "malloc_context_size=6:quarantine_size_mb=16:detect_stack_use_after_return=0:verify_asan_link_order=0";
}

namespace sim {

const char *fault_names[F_N] = {
    "alloc_fail_once", "alloc_fail_persistent", "rng_failure", "rng_odd_output", "seed_source_failure",
    "seed_source_partial_write", "seed_source_not_ready", "lock_acquire_failure", "lock_create_failure",
    "clock_jump", "preemption", "preemption_at_shared_data", "short_read", "read_error", "would_block", "premature_eof",
    "short_write", "write_error", "storage_full", "truncation", "bit_flip", "overwrite", "length_field_altered",
    "wrong_password", "iconv_open_failure", "resealed_payload", "restart_reload", "small_buffer", "splice" };

Shared *S;
bool tracing = false;
FILE *trace_out = nullptr;

static inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Prng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); } };

static Prng gen;
static const std::vector<uint32_t> *replay_vec;
static size_t replay_pos;
static uint64_t strat_index;
static bool strat_on;

static __thread int tl_quiet = 0, tl_uncounted = 0;
static __thread int tl_id = -1;
static bool in_run = false;

// ---------------------------------------------------------------- choices
static uint32_t record(uint32_t n, uint32_t v)
{
    if (S->nch < MAXCH) { S->chn[S->nch] = n; S->chv[S->nch] = v; S->nch++; }
    else S->overflow = 1;
    return v;
}

static uint32_t rr_pos, rr_end;
uint32_t choice_pos() { return S->nch < MAXCH ? S->nch : MAXCH; }
void reread(uint32_t from) { rr_pos = from; rr_end = choice_pos(); }

uint32_t choose(uint32_t n, const char *label)
{
    (void) label;
    if (n <= 1) return 0;
    if (rr_pos < rr_end) return S->chv[rr_pos++] % n;
    uint32_t v;
    if (replay_vec) v = replay_pos < replay_vec->size() ? (*replay_vec)[replay_pos++] % n : 0;
    else v = (uint32_t) ((unsigned __int128) gen.next() * n >> 64);
    return record(n, v);
}

bool chance(uint32_t num, uint32_t den, const char *label)
{
    // 0 is "no"
    uint32_t v = choose(den, label);
    return v >= den - num;
}

uint32_t strat(uint32_t n, const char *label)
{
    (void) label;
    if (n <= 1) return 0;
    if (replay_vec || rr_pos < rr_end) return choose(n, label);
    if (!strat_on) return choose(n, label);
    uint32_t v = (uint32_t) (strat_index % n);
    strat_index /= n;
    if (strat_index == 0) strat_on = false;   // index used up: the rest is drawn at random
    return record(n, v);
}

Bytes rbytes(size_t n, const char *label)
{
    uint32_t c = choose(0xffffffffu, label);
    Bytes b(n);
    if (c == 0) { for (size_t i = 0; i < n; i++) b[i] = (unsigned char) (i + 1); return b; }
    Prng p{mix(c)};
    for (size_t i = 0; i < n; i += 8)
    {
        uint64_t x = p.next();
        for (size_t j = 0; j < 8 && i + j < n; j++) b[i + j] = (unsigned char) (x >> (8 * j));
    }
    return b;
}

size_t rsize(size_t max, const char *label)
{
    switch (choose(4, label))
    {
    case 0: return choose((uint32_t) (max < 9 ? max : 9) + 1, label);
    case 1: { // around multiples of 8/32
        size_t m = choose(2, label) ? 32 : 8;
        size_t k = choose((uint32_t) (max / m) + 1, label) * m;
        size_t d = choose(3, label);
        k = d == 0 ? k : d == 1 ? k + 1 : (k ? k - 1 : 0);
        return k > max ? max : k; }
    case 2: return choose((uint32_t) (max < 100 ? max : 100) + 1, label);
    default: return choose((uint32_t) max + 1, label);
    }
}

// ---------------------------------------------------------------- events
static uint64_t g_seq;
uint64_t seqno() { return ++g_seq; }

static void hash_add(const void *p, size_t n)
{
    uint64_t h = S->hash;
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
    S->hash = h;
}

void ev(const char *fmt, ...)
{
    char b[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int) sizeof b) n = sizeof b - 1;
    int id = tl_id;
    hash_add(&id, sizeof id);
    hash_add(b, n);
    S->events++;
    if (tracing)
    {
        FILE *f = trace_out ? trace_out : stderr;
        if (tl_id >= 0) fprintf(f, "[t%d] %s\n", tl_id, b); else fprintf(f, "%s\n", b);
        fflush(f);
    }
}

std::string hex(const unsigned char *p, size_t n)
{
    static const char *d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n && i < 80; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    if (n > 80) s += "..(" + std::to_string(n) + ")";
    return s;
}

[[noreturn]] static void finish(uint32_t st)
{
    S->status = st;
    if (tracing && trace_out) fflush(trace_out);
    _exit(0);
}

static const char *op_ctx = "";
void violate(const char *cls, const char *fmt, ...)
{
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    if (tracing) { FILE *f = trace_out ? trace_out : stderr; fprintf(f, "VIOLATED %s: %s\n", S->cls, S->msg); fflush(f); }
    finish(2);
}

void discard(const char *why)
{
    snprintf(S->cls, sizeof S->cls, "discard:%s", why);
    probe(S->cls);
    if (tracing) { FILE *f = trace_out ? trace_out : stderr; fprintf(f, "DISCARDED %s\n", why); fflush(f); }
    finish(3);
}

void fault(Fault f)
{
    S->faults[f]++;
    if (f != F_PREEMPT && f != F_SHORT_READ && f != F_SHORT_WRITE) ev("fault %s", fault_names[f]);
}

void probe(const char *name)
{
    for (uint32_t i = 0; i < S->nprobe; i++) if (!strncmp(S->probe[i].name, name, sizeof S->probe[i].name - 1)) { S->probe[i].n++; return; }
    if (S->nprobe < MAXPROBE) { snprintf(S->probe[S->nprobe].name, sizeof S->probe[0].name, "%s", name); S->probe[S->nprobe].n = 1; S->nprobe++; }
}

Quiet::Quiet() { tl_quiet++; }
Quiet::~Quiet() { tl_quiet--; }
Uncounted::Uncounted() { tl_quiet++; tl_uncounted++; }
Uncounted::~Uncounted() { tl_quiet--; tl_uncounted--; }

// ---------------------------------------------------------------- modules
struct ModRange { uintptr_t lo, hi; char name[64]; };
static int mod_cb(struct dl_phdr_info *i, size_t, void *arg)
{
    std::vector<ModRange> *v = (std::vector<ModRange> *) arg;
    const char *nm = i->dlpi_name ? i->dlpi_name : "";
    const char *b = strrchr(nm, '/'); b = b ? b + 1 : nm;
    if (strcmp(b, "dstu.so") && strncmp(b, "libkeylib", 9)) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
        {
            ModRange r; r.lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; r.hi = r.lo + i->dlpi_phdr[k].p_memsz;
            snprintf(r.name, sizeof r.name, "%s", b);
            v->push_back(r);
        }
    return 0;
}
// writable static data of the library, with a mark for every word written while threads run
struct StatRange { uintptr_t lo, hi; std::vector<uint8_t> mark; };
static std::vector<StatRange> statics;
static int stat_cb(struct dl_phdr_info *i, size_t, void *)
{
    const char *nm = i->dlpi_name ? i->dlpi_name : "", *b = strrchr(nm, '/'); b = b ? b + 1 : nm;
    if (strcmp(b, "dstu.so") && strncmp(b, "libkeylib", 9)) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
        {
            StatRange r; r.lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; r.hi = r.lo + i->dlpi_phdr[k].p_memsz;
            r.mark.assign((r.hi - r.lo) / 8 + 2, 0);
            statics.push_back(std::move(r));
        }
    return 0;
}
static ModRange mods[4]; static int nmods;
static void refresh_mods()
{
    std::vector<ModRange> v; v.reserve(8);
    dl_iterate_phdr(mod_cb, &v);
    nmods = 0;
    for (auto &r : v) if (nmods < 4) mods[nmods++] = r;
}
static bool in_mod(uintptr_t pc, ModRange **m)
{
    for (int i = 0; i < nmods; i++) if (pc >= mods[i].lo && pc < mods[i].hi) { *m = &mods[i]; return true; }
    return false;
}
static uintptr_t mod_base(const char *name)
{
    struct A { const char *n; uintptr_t b; } a = {name, 0};
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) { A *a = (A *) p; const char *b = i->dlpi_name ? strrchr(i->dlpi_name, '/') : nullptr; if (b && !strcmp(b + 1, a->n)) a->b = i->dlpi_addr; return 0; }, &a);
    return a.b;
}

struct UW { uintptr_t pc; ModRange *m; int depth; };
static _Unwind_Reason_Code uw_cb(struct _Unwind_Context *c, void *arg)
{
    UW *u = (UW *) arg;
    int before = 0;
    uintptr_t pc = _Unwind_GetIPInfo(c, &before);
    if (!before && pc) pc--;
    if (in_mod(pc, &u->m)) { u->pc = pc; return _URC_END_OF_STACK; }
    if (++u->depth > 120) return _URC_END_OF_STACK;
    return _URC_NO_REASON;
}
static uintptr_t repo_frame(ModRange **m)
{
    UW u = {0, nullptr, 0};
    _Unwind_Backtrace(uw_cb, &u);
    if (m) *m = u.m;
    return u.pc;
}

// ---------------------------------------------------------------- allocation
struct Blk { void *p; size_t n; uint64_t serial; const char *file; int line; uint64_t step; uintptr_t site; };
static const uint32_t TB = 1u << 18;
static Blk *tab;
static uint64_t a_serial;
static long a_count, a_at = -1;
static bool a_persist, a_fired, a_sites;
static uint64_t a_fire_step; static uintptr_t a_fire_site; static uint64_t a_fire_serial;
static uint64_t n_steps;
static unsigned char fill_byte = 0xA5;

static uint32_t hslot(void *p) { return (uint32_t) (mix((uintptr_t) p) & (TB - 1)); }
static Blk *blk_find(void *p)
{
    for (uint32_t i = hslot(p); tab[i].p; i = (i + 1) & (TB - 1)) if (tab[i].p == p) return &tab[i];
    return nullptr;
}
static void blk_add(const Blk &b)
{
    uint32_t i = hslot(b.p), c = 0;
    while (tab[i].p) { i = (i + 1) & (TB - 1); if (++c > TB / 2) return; }
    tab[i] = b;
}
static void blk_del(Blk *b)
{
    uint32_t i = (uint32_t) (b - tab), j = i;
    tab[i].p = nullptr;
    for (;;)
    {
        j = (j + 1) & (TB - 1);
        if (!tab[j].p) return;
        uint32_t k = hslot(tab[j].p);
        if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
        tab[i] = tab[j]; tab[j].p = nullptr; i = j;
    }
}

static inline void step(bool lockop = false);

static bool alloc_should_fail()
{
    if (!in_run || tl_quiet) return false;
    long k = a_count++;
    if (a_at < 0) return false;
    if (k == a_at || (a_persist && k > a_at))
    {
        if (!a_fired)
        {
            a_fired = true;
            refresh_mods();
            a_fire_step = n_steps; a_fire_site = repo_frame(nullptr); a_fire_serial = a_serial;
            fault(a_persist ? F_ALLOC_PERSIST : F_ALLOC);
        }
        return true;
    }
    return false;
}

static void *sim_malloc(size_t n, const char *file, int line)
{
    step();
    if (n == 0) return nullptr;
    if (alloc_should_fail()) return nullptr;
    if (n > (1u << 30)) return nullptr;
    void *p = malloc(n);
    if (!p) return nullptr;
    memset(p, fill_byte, n);
    Blk b = {p, n, tl_uncounted ? 0 : ++a_serial, file, line, n_steps, a_sites ? repo_frame(nullptr) : 0};
    blk_add(b);
    return p;
}
static void sim_free(void *p, const char *, int)
{
    if (!p) return;
    step();
    Blk *b = blk_find(p);
    if (b) blk_del(b);
    free(p);
}
static void *sim_realloc(void *p, size_t n, const char *file, int line)
{
    if (!p) return sim_malloc(n, file, line);
    if (n == 0) { sim_free(p, file, line); return nullptr; }
    step();
    if (alloc_should_fail()) return nullptr;
    Blk *b = blk_find(p);
    size_t old = b ? b->n : 0;
    if (!b) return realloc(p, n);
    void *q = malloc(n);
    if (!q) return nullptr;
    memset(q, fill_byte, n);
    memcpy(q, p, old < n ? old : n);
    b = blk_find(p);
    if (b) blk_del(b);
    free(p);
    Blk nb = {q, n, tl_uncounted ? 0 : ++a_serial, file, line, n_steps, a_sites ? repo_frame(nullptr) : 0};
    blk_add(nb);
    return q;
}

void arm_alloc(long k, bool persist) { a_count = 0; a_at = k; a_persist = persist; a_fired = false; a_fire_step = 0; a_fire_site = 0; }
bool disarm_alloc() { a_at = -1; return a_fired; }
bool alloc_only_engine() { return !a_fired || (!a_persist && a_fire_site); }
long alloc_seen() { return a_count; }
void count_allocs() { a_count = 0; a_at = -1; a_fired = false; }
void alloc_sites(bool on) { refresh_mods(); a_sites = on; }
LiveMark live_mark() { return LiveMark{a_serial}; }
// the error queue keeps its text buffers for reuse
static bool err_queue(const Blk &b) { return b.file && strstr(b.file, "crypto/err/"); }
size_t live_since(LiveMark m, std::string *desc, int maxdesc)
{
    size_t c = 0;
    for (uint32_t i = 0; i < TB; i++)
        if (tab[i].p && tab[i].serial > m.serial && !err_queue(tab[i]))
        {
            c++;
            if (desc && maxdesc-- > 0)
            {
                char b[256];
                const char *f = tab[i].file ? tab[i].file : "?";
                snprintf(b, sizeof b, "%zu@%s:%d ", tab[i].n, f, tab[i].line);
                *desc += b;
            }
        }
    return c;
}
size_t live_total()
{
    size_t c = 0;
    for (uint32_t i = 0; i < TB; i++) if (tab[i].p && !err_queue(tab[i])) c++;
    return c;
}
// live blocks since the mark that the library's own code (not the failing libcrypto call itself) is answerable for
size_t owned_leaks(LiveMark m, std::string *desc)
{
    size_t c = 0; int maxdesc = 6;
    for (uint32_t i = 0; i < TB; i++)
        if (tab[i].p && tab[i].serial > m.serial && !err_queue(tab[i]))
        {
            if (a_fired && tab[i].site == a_fire_site && tab[i].step == a_fire_step) continue;
            if (a_fired && a_fire_site == 0 && tab[i].site == 0) continue;
            c++;
            if (desc && maxdesc-- > 0)
            {
                char b[256]; ModRange *mm = nullptr;
                uintptr_t s = tab[i].site;
                const char *f = tab[i].file ? tab[i].file : "?";
                if (s && in_mod(s, &mm)) snprintf(b, sizeof b, "%zu@%s:%d via %s+0x%lx ", tab[i].n, f, tab[i].line, mm->name, (unsigned long) (s - mod_base(mm->name)));
                else snprintf(b, sizeof b, "%zu@%s:%d ", tab[i].n, f, tab[i].line);
                *desc += b;
            }
        }
    return c;
}

// plain search: the C library's would be checked against sanitizer red zones
static bool find_bytes(const unsigned char *h, size_t hn, const unsigned char *p, size_t n)
{
    if (n == 0 || hn < n) return false;
    for (size_t i = 0; i + n <= hn; i++)
    {
        if (h[i] != p[0]) continue;
        size_t j = 1;
        while (j < n && h[i + j] == p[j]) j++;
        if (j == n) return true;
    }
    return false;
}
bool scan_live_for(const unsigned char *p, size_t n)
{
    for (uint32_t i = 0; i < TB; i++)
        if (tab[i].p && tab[i].n >= n && find_bytes((const unsigned char *) tab[i].p, tab[i].n, p, n)) return true;
    return false;
}
struct ScanArg { const char *so; const unsigned char *p; size_t n; bool found; };
static int scan_cb(struct dl_phdr_info *i, size_t, void *arg)
{
    ScanArg *a = (ScanArg *) arg;
    const char *b = i->dlpi_name ? strrchr(i->dlpi_name, '/') : nullptr;
    if (!b || strcmp(b + 1, a->so)) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
        {
            const unsigned char *lo = (const unsigned char *) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
            if (find_bytes(lo, i->dlpi_phdr[k].p_memsz, a->p, a->n)) a->found = true;
        }
    return 0;
}
bool scan_module_for(const char *so, const unsigned char *p, size_t n)
{
    ScanArg a = {so, p, n, false};
    dl_iterate_phdr(scan_cb, &a);
    return a.found;
}

// ---------------------------------------------------------------- scheduler
struct Thr { pthread_t t; sem_t sem; std::function<void()> fn; bool done = false, stalled = false; void *blocked = nullptr; uint64_t steps = 0; void *alt = nullptr; };
static std::vector<Thr *> thr;
static int cur = -1;
static bool threads_on = false;
static sem_t main_sem;
static uint32_t style_;
static int64_t gap = LLONG_MAX;
static int64_t countdown = 1 << 16;
static int64_t countdown_set = 1 << 16;
static uint64_t step_budget = ~0ull;
static uint64_t thr_step_base;

static void new_gap()
{
    // style & 7: range of gaps; 0 never
    static const int maxk[8] = {0, 5, 9, 13, 17, 21, 12, 15};
    int mk = maxk[style_ & 7];
    if (mk == 0) { gap = LLONG_MAX; return; }
    uint32_t k = choose(mk + 1, "gap");
    if (k == 0) { gap = LLONG_MAX; return; }
    uint64_t lo = 1ull << (k - 1);
    gap = (int64_t) (lo + choose((uint32_t) lo, "gap2"));
}

static void set_countdown()
{
    int64_t c = 1 << 20;
    if (threads_on && gap < c) c = gap;
    if (step_budget != ~0ull) { int64_t left = (int64_t) (step_budget - n_steps) + 1; if (left < 1) left = 1; if (left < c) c = left; }
    if (c < 1) c = 1;
    countdown = countdown_set = c;
}
static void note_steps()   // account for the steps since countdown was set
{
    int64_t used = countdown_set - countdown;
    n_steps += (uint64_t) used;
    if (gap != LLONG_MAX) gap -= used;
    if (cur >= 0) thr[cur]->steps += (uint64_t) used;
    countdown_set = countdown;
}

static std::vector<int> runnable(bool include_self, bool need = true)
{
    std::vector<int> r;
    for (int i = 0; i < (int) thr.size(); i++)
        if (!thr[i]->done && !thr[i]->blocked && !thr[i]->stalled && (include_self || i != cur)) r.push_back(i);
    if (!r.empty() || !need) return r;
    // a stalled thread goes on when nothing else can
    for (int i = 0; i < (int) thr.size(); i++)
        if (!thr[i]->done && !thr[i]->blocked && thr[i]->stalled && (include_self || i != cur)) { thr[i]->stalled = false; r.push_back(i); }
    return r;
}

static void switch_to(int next)
{
    int me = cur;
    if (next == me) return;
    uint64_t st = me >= 0 ? thr[me]->steps : 0;
    S->switches++;
    S->ileave = mix(S->ileave ^ ((uint64_t) (me + 1) << 56) ^ ((uint64_t) (next + 1) << 48) ^ st);
    hash_add(&S->ileave, 8);
    if (tracing) { FILE *f = trace_out ? trace_out : stderr; fprintf(f, "  -- switch t%d(step %llu) -> t%d\n", me, (unsigned long long) st, next); fflush(f); }
    cur = next;
    set_countdown();
    sem_post(&thr[next]->sem);
    if (me >= 0 && !thr[me]->done)
    {
        while (sem_wait(&thr[me]->sem) != 0) {}
    }
}

static void preempt(bool need = false)
{
    std::vector<int> r = runnable(false, need);
    new_gap();
    set_countdown();
    if (r.empty()) return;
    int n = r[choose((uint32_t) r.size(), "next")];
    S->faults[F_PREEMPT]++;
    switch_to(n);
}

static void slow_step()
{
    note_steps();
    if (n_steps > step_budget)
        violate("no-progress", "operation did not finish within its step budget (%llu steps)", (unsigned long long) n_steps);
    if (threads_on && gap <= 0)
    {
        if (tl_quiet || tl_id < 0) { countdown = countdown_set = 32; gap = 0; return; }
        preempt();
        return;
    }
    set_countdown();
}

static inline void step(bool lockop)
{
    (void) lockop;
    if (!in_run) return;
    if (__builtin_expect(--countdown <= 0, 0)) slow_step();
}

// Static data that is written while threads run is where they meet: style & 16 preempts there, before or after.
static bool hot_on;
static int hot_left;
static void hot(uintptr_t a, size_t n, bool store)
{
    for (auto &r : statics)
        if (a >= r.lo && a < r.hi)
        {
            if (tl_id < 0 || tl_quiet) return;
            size_t i = (a - r.lo) / 8, j = (a - r.lo + (n ? n - 1 : 0)) / 8; bool was = false;
            if (j >= r.mark.size()) j = r.mark.size() - 1;
            for (size_t k = i; k <= j; k++) { was |= r.mark[k]; if (store) r.mark[k] = 1; }
            if (!(store || was) || hot_left <= 0) return;
            uint32_t c = choose(7, "meet");
            if (c < 3) return;
            hot_left--;
            S->faults[F_MEET]++;
            note_steps();
            if (c == 3) { gap = 1; set_countdown(); return; }
            if (c == 4 || c == 5) thr[cur]->stalled = true;              // until the others are done, or until one of them is here
            else for (auto t : thr) t->stalled = false;
            preempt(true);
            return;
        }
}
static inline void touch(const volatile void *a, size_t n, bool store) { if (__builtin_expect(hot_on && in_run, 0)) hot((uintptr_t) a, n, store); }

static void lock_step()
{
    step();
    if (threads_on && in_run && !tl_quiet && tl_id >= 0 && (style_ & 8))
        if (chance(1, 3, "lockpre")) { note_steps(); preempt(); }
}

void yield_point() { lock_step(); }
void set_step_budget(uint64_t extra) { note_steps(); step_budget = extra ? n_steps + extra : ~0ull; set_countdown(); }
uint64_t steps_now() { note_steps(); return n_steps; }

static void block_on(void *what)
{
    // current thread cannot proceed
    if (!threads_on || tl_id < 0)
        violate("deadlock", "the only running thread waits for a lock it can never get");
    thr[tl_id]->blocked = what;
    std::vector<int> r = runnable(false);
    if (r.empty())
        violate("deadlock", "all unfinished threads wait for locks");
    note_steps();
    int n = r[choose((uint32_t) r.size(), "next")];
    new_gap();
    switch_to(n);
}
static void wake_all(void *what) { for (auto t : thr) if (t->blocked == what) t->blocked = nullptr; }

static void install_altstack(void **keep)
{
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_size = 256 * 1024;
    ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    *keep = ss.ss_sp;
}

static void *thr_main(void *a)
{
    long id = (long) a;
    tl_id = (int) id;
    Thr *t = thr[id];
    install_altstack(&t->alt);
    while (sem_wait(&t->sem) != 0) {}
    t->fn();
    {
        // per-thread libcrypto state is released while the thread is still scheduled
        OPENSSL_thread_stop();
    }
    note_steps();
    t->done = true;
    std::vector<int> r = runnable(false);
    if (r.empty())
    {
        bool all = true;
        for (auto x : thr) if (!x->done) all = false;
        if (!all) violate("deadlock", "remaining threads wait for locks nobody will release");
        cur = -1;
        sem_post(&main_sem);
    }
    else
    {
        int n = r[choose((uint32_t) r.size(), "next")];
        new_gap();
        switch_to(n);
    }
    tl_id = -1;
    tl_quiet = 1000;
    return nullptr;
}

void run_threads(const std::vector<std::function<void()>> &fns, uint32_t style)
{
    style_ = style;
    sem_init(&main_sem, 0, 0);
    thr.clear();
    for (auto &f : fns) { Thr *t = new Thr; t->fn = f; sem_init(&t->sem, 0, 0); thr.push_back(t); }
    for (size_t i = 0; i < thr.size(); i++)
    {
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
        if (pthread_create(&thr[i]->t, &at, thr_main, (void *) i)) { fprintf(stderr, "pthread_create failed\n"); _exit(77); }
        pthread_attr_destroy(&at);
    }
    note_steps();
    if ((hot_on = (style & 16) != 0)) { statics.clear(); dl_iterate_phdr(stat_cb, nullptr); hot_left = 60; }
    threads_on = true;
    cur = -1;
    int first = (int) choose((uint32_t) thr.size(), "first");
    new_gap();
    switch_to(first);
    while (sem_wait(&main_sem) != 0) {}
    threads_on = hot_on = false;
    for (auto t : thr) pthread_join(t->t, nullptr);
    for (auto t : thr) { if (t->alt) munmap(t->alt, 256 * 1024); delete t; }
    thr.clear();
    gap = LLONG_MAX;
    set_countdown();
}
int self() { return tl_id; }

// ---------------------------------------------------------------- clock, entropy, randomness
ClockPlan clk;
RngPlan rng;
bool rng_count_preempt;
const RAND_METHOD *rng_forward;
SeedPlan seedsrc;
LockPlan lockplan;
void (*seam_cb)(int, int64_t);
#define SEAM(w, a) do { if (seam_cb) seam_cb(w, a); } while (0)

static void prng_fill(uint64_t seed, uint64_t ctr, unsigned char *b, size_t n)
{
    Prng p{mix(seed * 0x9e3779b97f4a7c15ull + ctr)};
    for (size_t i = 0; i < n; i += 8)
    {
        uint64_t x = p.next();
        for (size_t j = 0; j < 8 && i + j < n; j++) b[i + j] = (unsigned char) (x >> (8 * j));
    }
}

static int sr_draw(unsigned char *b, int n)
{
    if (tl_quiet || !in_run)            // harness and model: a separate stream without faults
    {
        static uint64_t qc;
        prng_fill(0x5151, ++qc, b, n > 0 ? n : 0);
        return 1;
    }
    if (rng_forward) return rng_forward->bytes(b, n);
    step();
    RngPlan &r = rng;
    long k = r.calls++;
    if (in_run && r.calls > r.budget)
        violate("no-progress", "more than %ld random draws without finishing", r.budget);
    if (r.fail_at >= 0 && k >= r.fail_at && k < r.fail_at + r.fail_for)
    {
        r.failed++;
        fault(F_RNG_FAIL);
        if (r.fill_on_fail && n > 0) memset(b, 0, n);
        return 0;
    }
    if (n <= 0) return 1;
    if ((size_t) k < r.script.size())
    {
        const Bytes &s = r.script[k];
        memset(b, 0, n);
        for (int i = 0; i < n && i < (int) s.size(); i++) b[n - 1 - i] = s[s.size() - 1 - i];
        S->faults[F_RNG_ODD]++;
        return 1;
    }
    if (r.odd && k >= r.odd_at && k < r.odd_at + r.odd_for)
    {
        S->faults[F_RNG_ODD]++;
        switch (r.odd)
        {
        case 1: memset(b, 0, n); return 1;
        case 2: memset(b, 0xff, n); return 1;
        case 3: prng_fill(r.seed, 0, b, n); return 1;
        case 4: memset(b, 0, n); prng_fill(r.seed, k + 1, b + n - 1, 1); return 1;
        }
    }
    prng_fill(r.seed, (uint64_t) k + 1, b, n);
    return 1;
}
static int sr_bytes(unsigned char *b, int n)
{
    int r = sr_draw(b, n);
    if (r == 1 && n > 0 && rng.keep && in_run && !tl_quiet) { Quiet q; rng.given.emplace_back(b, b + n); }
    return r;
}
static int sr_seed(const void *, int) { return 1; }
static int sr_add(const void *, int, double) { return 1; }
static int sr_status() { return rng_forward && !tl_quiet && in_run ? rng_forward->status() : 1; }
static void sr_cleanup() {}
RAND_METHOD rand_meth = {sr_seed, sr_bytes, sr_cleanup, sr_add, sr_bytes, sr_status};

// entropy source that the engine's generator is seeded from
static int ss_mode()
{
    SeedPlan &s = seedsrc;
    int m = 0;
    if (s.per_call) { if (chance(1, s.per_call_den, "seedfault")) m = 1 + (int) choose(2, "seedkind"); }
    else { m = s.fail_next; if (m == 3) m = 0; }
    return m;
}
static int ss_bytes(unsigned char *b, int n)
{
    yield_point();
    SeedPlan &s = seedsrc;
    s.calls++;
    int m = ss_mode();
    if (m == 1) { s.failures++; fault(F_SEED_FAIL); SEAM(2, 0); return 0; }
    if (m == 2)
    {
        s.failures++; fault(F_SEED_PARTIAL); SEAM(2, 0);
        if (n > 1) prng_fill(~s.seed, (uint64_t) s.calls, b, (size_t) n / 2);
        return 0;
    }
    prng_fill(s.seed, (uint64_t) s.delivered + 1, b, n > 0 ? n : 0);
    s.delivered++;
    s.out.push_back(Bytes(b, b + (n > 0 ? n : 0)));
    SEAM(1, (int64_t) s.out.size() - 1);
    yield_point();
    ev("seed source delivers %d bytes", n);
    return 1;
}
static int ss_status()
{
    yield_point();
    SeedPlan &s = seedsrc;
    s.status_calls++;
    bool bad = s.per_call ? chance(1, s.per_call_den, "seedstat") : s.fail_next == 3;
    if (bad) { s.failures++; fault(F_SEED_NOTREADY); SEAM(2, 0); return 0; }
    return 1;
}
static int ss_seed(const void *, int) { yield_point(); return 1; }
static int ss_add(const void *, int, double) { yield_point(); return 1; }
static void ss_cleanup() {}
static RAND_METHOD seed_meth = {ss_seed, ss_bytes, ss_cleanup, ss_add, ss_bytes, ss_status};

long iconv_open_balance, iconv_fail_at = -1, iconv_opens;

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- interposed functions
template <class F> static F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }

extern "C" {

// coverage / memory access hooks called by the instrumented library code
static struct { char name[32]; uint32_t base, n; } covmod[8];
static int ncovmod;
static uint32_t next_edge = 1;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
    if (a == b || *a) return;
    Dl_info di; const char *nm = "?";
    if (dladdr(a, &di) && di.dli_fname) { nm = strrchr(di.dli_fname, '/'); nm = nm ? nm + 1 : di.dli_fname; }
    uint32_t n = (uint32_t) (b - a), base = 0;
    for (int i = 0; i < ncovmod; i++) if (!strncmp(covmod[i].name, nm, 31) && covmod[i].n == n) base = covmod[i].base;
    if (!base)
    {
        base = next_edge;
        if (base + n < MAXEDGE) next_edge += n;
        if (ncovmod < 8) { snprintf(covmod[ncovmod].name, 32, "%s", nm); covmod[ncovmod].base = base; covmod[ncovmod].n = n; ncovmod++; }
    }
    for (uint32_t i = 0; i < n; i++) a[i] = base + i < MAXEDGE ? base + i : 0;
    if (S) S->nedges = next_edge - 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    if (S && *g) S->edges[*g] = 1;
    step();
}
#define LS(n, t) void __sanitizer_cov_load##n(t *p) { step(); touch(p, n, false); } void __sanitizer_cov_store##n(t *p) { step(); touch(p, n, true); }
LS(1, uint8_t) LS(2, uint16_t) LS(4, uint32_t) LS(8, uint64_t) LS(16, __int128)
// block copies made by the library (--wrap at link time)
void *__asan_memcpy(void *, const void *, size_t); void *__asan_memmove(void *, const void *, size_t); void *__asan_memset(void *, int, size_t);
void *__wrap___asan_memcpy(void *d, const void *s, size_t n) { if (hot_on) { touch(s, n, false); touch(d, n, true); } return __asan_memcpy(d, s, n); }
void *__wrap___asan_memmove(void *d, const void *s, size_t n) { if (hot_on) { touch(s, n, false); touch(d, n, true); } return __asan_memmove(d, s, n); }
void *__wrap___asan_memset(void *d, int c, size_t n) { if (hot_on) touch(d, n, true); return __asan_memset(d, c, n); }

// compared and wiped ranges are looked at by the sanitizer
int CRYPTO_memcmp(const void *a, const void *b, size_t n)
{
    static volatile int seen; seen = memcmp(a, b, n);
    const volatile unsigned char *x = (const volatile unsigned char *) a, *y = (const volatile unsigned char *) b; unsigned char r = 0;
    while (n--) r |= *x++ ^ *y++;
    return r;
}
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); __asm__ __volatile__("" : : "r"(p) : "memory"); }

time_t time(time_t *t)
{
    static auto r = real<time_t (*)(time_t *)>("time");
    if (!in_run || !clk.on) { time_t v = r ? r(nullptr) : 0; if (t) *t = v; return v; }
    yield_point();
    if (clk.jump && chance(1, 3, "clockjump")) { clk.now += (int64_t) choose(1u << 30, "clockby") * (choose(2, "clockdir") ? -1 : 1) * 4; fault(F_CLOCK_JUMP); S->simtime += 1; }
    else { clk.now += 1; S->simtime += 1; }
    clk.returned.push_back(clk.now);
    SEAM(3, clk.now);
    if (t) *t = (time_t) clk.now;
    return (time_t) clk.now;
}

const RAND_METHOD *RAND_OpenSSL_dummy();
RAND_METHOD *RAND_OpenSSL(void) { return &seed_meth; }

int pthread_once(pthread_once_t *o, void (*f)(void))
{
    volatile int *st = (volatile int *) o;
    if (*st == 2) return 0;
    lock_step();
    while (*st == 1)
    {
        if (!in_run) { sched_yield(); continue; }
        block_on((void *) o);
    }
    if (*st == 2) return 0;
    *st = 1;
    f();
    *st = 2;
    wake_all((void *) o);
    lock_step();
    return 0;
}

struct LockRec { void *l; int w, r; };
static LockRec lr[4096]; static int nlr;
static LockRec *lrec(void *l, bool add)
{
    for (int i = 0; i < nlr; i++) if (lr[i].l == l) return &lr[i];
    if (!add || nlr >= 4096) return nullptr;
    lr[nlr] = LockRec{l, 0, 0};
    return &lr[nlr++];
}
static int lock_loop(int (*tryf)(void *), void *l, bool w)
{
    lock_step();
    for (;;)
    {
        int r = tryf(l);
        if (r == 0) { LockRec *x = lrec(l, true); if (x) { if (w) x->w++; else x->r++; } lock_step(); return 0; }
        if (r != EBUSY && r != EAGAIN) return r;
        if (!in_run) { sched_yield(); continue; }
        block_on(l);
    }
}
static int unlock_any(int (*f)(void *), void *l, const char *what)
{
    LockRec *x = lrec(l, false);
    if (in_run && (!x || (x->w == 0 && x->r == 0)))
        violate("unlock-not-held", "%s released without being held", what);
    if (x) { if (x->w) x->w--; else if (x->r) x->r--; if (!x->w && !x->r) { *x = lr[--nlr]; } }
    int r = f(l);
    wake_all(l);
    lock_step();
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { static auto t = real<int (*)(void *)>("pthread_rwlock_tryrdlock"); return lock_loop(t, l, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { static auto t = real<int (*)(void *)>("pthread_rwlock_trywrlock"); return lock_loop(t, l, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { static auto f = real<int (*)(void *)>("pthread_rwlock_unlock"); return unlock_any(f, l, "rwlock"); }
int pthread_rwlock_destroy(pthread_rwlock_t *l)
{
    static auto f = real<int (*)(void *)>("pthread_rwlock_destroy");
    LockRec *x = lrec(l, false);
    if (x && in_run && (x->w || x->r)) violate("lock-destroyed-held", "a lock was destroyed while held");
    if (x) *x = lr[--nlr];
    return f(l);
}

// lock functions as seen by the library under test only (libcrypto binds its own)
CRYPTO_RWLOCK *CRYPTO_THREAD_lock_new(void)
{
    static auto f = real<CRYPTO_RWLOCK *(*)(void)>("CRYPTO_THREAD_lock_new");
    if (in_run && lockplan.on && lockplan.fail_new) { lockplan.fired = true; lockplan.fail_new--; fault(F_LOCKNEW_FAIL); SEAM(2, 0); return nullptr; }
    return f();
}
int CRYPTO_THREAD_write_lock(CRYPTO_RWLOCK *l)
{
    static auto f = real<int (*)(CRYPTO_RWLOCK *)>("CRYPTO_THREAD_write_lock");
    if (in_run && lockplan.on && !tl_quiet)
    {
        long k = lockplan.n++;
        if (k == lockplan.fail_at || (lockplan.per_call && chance(1, 8, "lockfail"))) { lockplan.fired = true; lockplan.fails++; fault(F_LOCK_FAIL); SEAM(2, 0); return 0; }
    }
    return f(l);
}
int CRYPTO_THREAD_read_lock(CRYPTO_RWLOCK *l)
{
    static auto f = real<int (*)(CRYPTO_RWLOCK *)>("CRYPTO_THREAD_read_lock");
    if (in_run && lockplan.on && !tl_quiet)
    {
        long k = lockplan.n++;
        if (k == lockplan.fail_at || (lockplan.per_call && chance(1, 8, "lockfail"))) { lockplan.fired = true; lockplan.fails++; fault(F_LOCK_FAIL); SEAM(2, 0); return 0; }
    }
    return f(l);
}

iconv_t iconv_open(const char *to, const char *from)
{
    static auto f = real<iconv_t (*)(const char *, const char *)>("iconv_open");
    if (in_run && !tl_quiet)
    {
        long k = iconv_opens++;
        if (k == iconv_fail_at) { fault(F_ICONV_OPEN); errno = EINVAL; return (iconv_t) -1; }
    }
    iconv_t r = f(to, from);
    if (r != (iconv_t) -1) iconv_open_balance++;
    return r;
}
int iconv_close(iconv_t c)
{
    static auto f = real<int (*)(iconv_t)>("iconv_close");
    iconv_open_balance--;
    return f(c);
}

// ---------------------------------------------------------------- crashes
static bool setting_up;
static void crash_report(const char *kind)
{
    static volatile int nested = 0;
    if (nested++) _exit(99);
    tl_quiet = 1000;
    refresh_mods();
    ModRange *m = nullptr;
    uintptr_t pc = repo_frame(&m);
    note_steps();
    if (a_fired && pc == a_fire_site && n_steps == a_fire_step)
    {
        snprintf(S->cls, sizeof S->cls, "discard:libcrypto-crash-on-oom");
        probe(S->cls);
        if (tracing) fprintf(trace_out ? trace_out : stderr, "libcrypto crashed by itself on the injected allocation failure (%s)\n", kind);
        finish(3);
    }
    if (m) snprintf(S->cls, sizeof S->cls, "crash:%s@%s+0x%lx", kind, m->name, (unsigned long) (pc - mod_base(m->name)));
    else snprintf(S->cls, sizeof S->cls, "crash:%s", kind);
    snprintf(S->msg, sizeof S->msg, "memory error or crash (%s)%s%s", kind, *op_ctx ? " during " : "", op_ctx);
    if (tracing) { FILE *f = trace_out ? trace_out : stderr; fprintf(f, "VIOLATED %s: %s\n", S->cls, S->msg); fflush(f); }
    if (setting_up) fprintf(stderr, "crash while the engine was set up for the first time: %s\n", S->cls);
    S->status = 2;
}

void __asan_on_error()
{
    char k[128];
    const char *d = __asan_get_report_description();
    snprintf(k, sizeof k, "%s", d ? d : "asan");
    for (char *c = k; *c; c++) if (*c == ' ') *c = '-';
    crash_report(k);
    if (!getenv("SIM_ASAN_REPORT")) _exit(setting_up ? 78 : 0);
}

static void on_sig(int s, siginfo_t *, void *)
{
    const char *k = s == SIGSEGV ? "SEGV" : s == SIGBUS ? "BUS" : s == SIGFPE ? "FPE" : s == SIGILL ? "ILL" : s == SIGABRT ? "ABRT" : s == SIGPROF ? "hang-cpu" : s == SIGALRM ? "hang-wall" : "SIG";
    if (s == SIGPROF || s == SIGALRM)
    {
        snprintf(S->cls, sizeof S->cls, "no-progress");
        snprintf(S->msg, sizeof S->msg, "the run did not finish within its time limit (%s)", k);
        S->status = 2;
        _exit(setting_up ? 78 : 0);
    }
    crash_report(k);
    _exit(setting_up ? 78 : 0);
}
} // extern "C"

namespace sim {

void set_op(const char *s) { op_ctx = s; }

static void handlers()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGALRM}) sigaction(s, &sa, nullptr);
}
void in_setup(bool on) { setting_up = on; if (on) handlers(); }

void begin_run(uint64_t seed, uint64_t run, const std::vector<uint32_t> *rv)
{
    gen.s = mix(seed * 1000003ull + 17) ^ mix(run + 0x5851f42d4c957f2dull);
    strat_index = run + seed % 1000003ull * 7919;
    strat_on = true;
    replay_vec = rv; replay_pos = 0;
    S->status = 0; S->nch = 0; S->overflow = 0; S->hash = 0xcbf29ce484222325ull; S->steps = 0; S->events = 0; S->ileave = 0; S->switches = 0; S->simtime = 0; S->checks = 0;
    S->cls[0] = S->msg[0] = 0;
    memset(S->faults, 0, sizeof S->faults);
    S->nprobe = 0;
    n_steps = 0; g_seq = 0;
    handlers();
    void *keep; install_altstack(&keep);
    struct itimerval iv; memset(&iv, 0, sizeof iv);
    iv.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &iv, nullptr);
    iv.it_value.tv_sec = 400; setitimer(ITIMER_REAL, &iv, nullptr);
    seam_cb = nullptr; rng = RngPlan(); seedsrc = SeedPlan(); clk = ClockPlan(); lockplan = LockPlan();
    iconv_fail_at = -1; iconv_opens = 0;
    a_at = -1; a_fired = false; a_sites = false;
    in_run = true;
    step_budget = ~0ull; gap = LLONG_MAX;
    set_countdown();
}
void end_run()
{
    note_steps();
    S->steps = n_steps;
    in_run = false;
    finish(1);
}
void new_fill(unsigned char c) { fill_byte = c; }

void core_init()
{
    tab = (Blk *) mmap(nullptr, sizeof(Blk) * TB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->nedges = next_edge - 1;
    if (!CRYPTO_set_mem_functions(sim_malloc, sim_realloc, sim_free)) { fprintf(stderr, "cannot set memory functions\n"); _exit(77); }
}

// ---------------------------------------------------------------- streams
static int st_read(Stream *s, char *b, int n, bool *retry)
{
    *retry = false;
    s->reads++;
    if (n <= 0) return 0;
    size_t lim = s->data.size();
    long stop = -1; int kind = 0;
    if (s->err_at >= 0 && (size_t) s->err_at <= lim) { stop = s->err_at; kind = 1; }
    if (s->eof_at >= 0 && (size_t) s->eof_at < lim && (stop < 0 || s->eof_at < stop)) { stop = s->eof_at; kind = 2; }
    if (s->retry_at >= 0 && (stop < 0 || s->retry_at < stop)) { stop = s->retry_at; kind = 3; }
    size_t avail = (stop >= 0 && (size_t) stop < lim ? (size_t) stop : lim) - s->pos;
    if (s->pos > lim) avail = 0;
    if (avail == 0 || (stop >= 0 && s->pos >= (size_t) stop))
    {
        if (stop >= 0 && s->pos >= (size_t) stop && kind)
        {
            s->faulted = true;
            if (kind == 1) { fault(F_READ_ERR); errno = EIO; return -1; }
            if (kind == 2) { fault(F_READ_EOF); return 0; }
            fault(F_READ_RETRY);
            if (s->retry_once) s->retry_at = -1;
            *retry = true; errno = EAGAIN; return -1;
        }
        s->late_reads++;
        return 0;
    }
    size_t want = (size_t) n < avail ? (size_t) n : avail;
    if (s->style == 1) want = 1;
    else if (s->style == 2) want = 1 + choose((uint32_t) want, "shortread");
    if (s->pos < s->first && want < s->first - s->pos) want = s->first - s->pos < avail ? s->first - s->pos : avail;
    if (want > (size_t) n) want = n;
    if (want < (size_t) n && want < avail) S->faults[F_SHORT_READ]++;
    memcpy(b, s->data.data() + s->pos, want);
    s->pos += want;
    return (int) want;
}
static int st_write(Stream *s, const char *b, int n)
{
    if (n <= 0) return 0;
    if (s->werr_at >= 0 && (long) s->out.size() >= s->werr_at) { s->faulted = true; fault(F_WRITE_ERR); errno = EIO; return -1; }
    size_t want = n;
    if (s->cap >= 0)
    {
        if ((long) s->out.size() >= s->cap) { s->faulted = true; fault(F_WRITE_FULL); errno = ENOSPC; return -1; }
        if (want > (size_t) s->cap - s->out.size()) { want = (size_t) s->cap - s->out.size(); s->faulted = true; fault(F_WRITE_FULL); }
    }
    if (s->werr_at >= 0 && want > (size_t) s->werr_at - s->out.size()) { want = (size_t) s->werr_at - s->out.size(); s->faulted = true; fault(F_WRITE_ERR); }
    if (s->wstyle == 1) want = 1;
    else if (s->wstyle == 2) want = 1 + choose((uint32_t) want, "shortwrite");
    if (want < (size_t) n) S->faults[F_SHORT_WRITE]++;
    s->out.insert(s->out.end(), b, b + want);
    return (int) want;
}

static int b_read(BIO *b, char *p, int n)
{
    Stream *s = (Stream *) BIO_get_data(b);
    BIO_clear_retry_flags(b);
    bool retry;
    int r = st_read(s, p, n, &retry);
    if (retry) BIO_set_retry_read(b);
    return r;
}
static int b_write(BIO *b, const char *p, int n)
{
    BIO_clear_retry_flags(b);
    Stream *s = (Stream *) BIO_get_data(b);
    if (s->wretry && n > 0 && chance(1, s->wretry, "write would block")) { fault(F_READ_RETRY); BIO_set_retry_write(b); errno = EAGAIN; return -1; }
    return st_write(s, p, n);
}
static int b_puts(BIO *b, const char *p) { return b_write(b, p, (int) strlen(p)); }
static int b_gets(BIO *b, char *p, int n)
{
    Stream *s = (Stream *) BIO_get_data(b);
    BIO_clear_retry_flags(b);
    int i = 0;
    while (i < n - 1)
    {
        bool retry; char c;
        int st = s->style; s->style = 0;
        int r = st_read(s, &c, 1, &retry);
        s->style = st;
        if (r <= 0) { if (retry) BIO_set_retry_read(b); if (i == 0) return r; break; }
        p[i++] = c;
        if (c == '\n') break;
    }
    p[i] = 0;
    return i;
}
static long b_ctrl(BIO *b, int cmd, long num, void *)
{
    Stream *s = (Stream *) BIO_get_data(b);
    switch (cmd)
    {
    case BIO_CTRL_EOF: return s->pos >= s->data.size();
    case BIO_CTRL_PENDING: return 0;
    case BIO_CTRL_FLUSH: return s->werr_at >= 0 && (long) s->out.size() >= s->werr_at ? 0 : 1;
    case BIO_CTRL_GET_CLOSE: return BIO_get_shutdown(b);
    case BIO_CTRL_SET_CLOSE: BIO_set_shutdown(b, (int) num); return 1;
    case BIO_CTRL_RESET: s->closed = true; return 0;   // nobody should rewind the caller's stream
    case BIO_CTRL_DUP: return 1;
    case BIO_C_FILE_TELL: return s->seekable ? (long) s->pos : -1;
    case BIO_C_FILE_SEEK: if (!s->seekable || num < 0 || (size_t) num > s->data.size()) return -1; s->pos = (size_t) num; return 0;
    default: return 0;
    }
}
static int b_create(BIO *b) { BIO_set_init(b, 1); BIO_set_shutdown(b, 1); return 1; }
static int b_destroy(BIO *b) { if (b) { Stream *s = (Stream *) BIO_get_data(b); if (s) s->closed = true; } return 1; }

static BIO_METHOD *bm;
void streams_init()
{
    bm = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "simulated storage");
    BIO_meth_set_read(bm, b_read); BIO_meth_set_write(bm, b_write); BIO_meth_set_puts(bm, b_puts); BIO_meth_set_gets(bm, b_gets);
    BIO_meth_set_ctrl(bm, b_ctrl); BIO_meth_set_create(bm, b_create); BIO_meth_set_destroy(bm, b_destroy);
}
BIO *new_bio(Stream *s)
{
    Quiet q;
    BIO *b = BIO_new(bm);
    BIO_set_data(b, s);
    return b;
}
static ssize_t ck_read(void *c, char *b, size_t n) { bool r; return st_read((Stream *) c, b, (int) n, &r); }
static ssize_t ck_write(void *c, const char *b, size_t n) { int r = st_write((Stream *) c, b, (int) n); return r < 0 ? 0 : r; }
static int ck_close(void *c) { ((Stream *) c)->closed = true; return 0; }
FILE *new_file(Stream *s, int bufstyle)
{
    cookie_io_functions_t io = {ck_read, ck_write, nullptr, ck_close};
    FILE *f = fopencookie(s, "r+", io);
    if (f && bufstyle == 1) setvbuf(f, nullptr, _IONBF, 0);
    else if (f && bufstyle == 2) setvbuf(f, nullptr, _IOFBF, 16);
    return f;
}

Guarded::Guarded(const unsigned char *d, size_t n_, int style)
{
    n = n_;
    if (style == 0 || n == 0)
    {
        heap = true;
        p = (unsigned char *) malloc(n ? n : 1);
        if (n) memcpy(p, d, n);
        else __asan_poison_memory_region(p, 1);
        return;
    }
    size_t pg = 4096, len = (n + pg - 1) / pg * pg;
    maplen = len + pg;
    map = mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect((char *) map + len, pg, PROT_NONE);
    p = (unsigned char *) map + len - n;
    memcpy(p, d, n);
}
Guarded::~Guarded() { if (heap) { if (n == 0) __asan_unpoison_memory_region(p, 1); free(p); } else munmap(map, maplen); }

} // namespace sim

// ---------------------------------------------------------------- system under test
namespace sut {
std::string libdir;
ENGINE *e;
static void *kl;
ENGINE *dyn_load(int list_add, const char *id)
{
    ENGINE_load_dynamic();
    ENGINE *x = ENGINE_by_id("dynamic");
    if (!x) return nullptr;
    std::string so = libdir + "/engine/dstu.so";
    std::string la = std::to_string(list_add);
    if (!ENGINE_ctrl_cmd_string(x, "SO_PATH", so.c_str(), 0) || (id && !ENGINE_ctrl_cmd_string(x, "ID", id, 0)) ||
        !ENGINE_ctrl_cmd_string(x, "LIST_ADD", la.c_str(), 0) || !ENGINE_ctrl_cmd_string(x, "LOAD", nullptr, 0))
    {
        ENGINE_free(x);
        return nullptr;
    }
    return x;
}
// what an application does to let go of the engine completely
void unload(ENGINE *x)
{
    ENGINE_unregister_digests(x); ENGINE_unregister_ciphers(x); ENGINE_unregister_pkey_meths(x); ENGINE_unregister_pkey_asn1_meths(x); ENGINE_unregister_RAND(x);
    ENGINE_remove(x);
    ENGINE_free(x);
}
void load_engine()
{
    e = dyn_load(1);
    if (!e || !ENGINE_init(e)) { ERR_print_errors_fp(stderr); fprintf(stderr, "cannot load the engine from %s\n", libdir.c_str()); _exit(77); }
}
#define X(n) decltype(n) n;
X(parseKey6) X(readKey6) X(readKey6_bio) X(parseJKS) X(readJKS) X(readJKS_bio) X(parsePKCS12) X(readPKCS12) X(readPKCS12_bio)
X(KeyStoreFree) X(KeyStoreKeyNum) X(KeyStoreCertNum) X(KeyStoreGetKey) X(KeyStoreGetCert)
#undef X
void load_keylib()
{
    std::string so = libdir + "/keylib/libkeylib.so";
    kl = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!kl) { fprintf(stderr, "%s\n", dlerror()); _exit(77); }
#define X(n) n = (decltype(n)) dlsym(kl, #n); if (!n) { fprintf(stderr, "no symbol %s\n", #n); _exit(77); }
    X(parseKey6) X(readKey6) X(readKey6_bio) X(parseJKS) X(readJKS) X(readJKS_bio) X(parsePKCS12) X(readPKCS12) X(readPKCS12_bio)
    X(KeyStoreFree) X(KeyStoreKeyNum) X(KeyStoreCertNum) X(KeyStoreGetKey) X(KeyStoreGetCert)
#undef X
}
}
