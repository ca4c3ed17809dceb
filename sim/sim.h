// Simulator core: one process, one seed, every decision a recorded choice.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <openssl/ossl_typ.h>
#include <openssl/rand.h>
#include <openssl/bio.h>

typedef std::vector<unsigned char> Bytes;

namespace sim {

enum Fault {
    F_ALLOC, F_ALLOC_PERSIST, F_RNG_FAIL, F_RNG_ODD, F_SEED_FAIL, F_SEED_PARTIAL, F_SEED_NOTREADY,
    F_LOCK_FAIL, F_LOCKNEW_FAIL, F_CLOCK_JUMP, F_PREEMPT, F_MEET, F_SHORT_READ, F_READ_ERR, F_READ_RETRY, F_READ_EOF,
    F_SHORT_WRITE, F_WRITE_ERR, F_WRITE_FULL, F_TRUNCATE, F_BITFLIP, F_OVERWRITE, F_LENFIELD, F_WRONGPASS,
    F_ICONV_OPEN, F_RESEAL, F_RESTART, F_SMALLBUF, F_SPLICE, F_N
};
extern const char *fault_names[F_N];

const uint32_t MAXCH = 1u << 17, MAXEDGE = 1u << 15, MAXPROBE = 96;

struct Probe { char name[56]; uint64_t n; };

// Shared between worker and forked child.
struct Shared {
    volatile uint32_t status;         // 0 running, 1 ok, 2 violation, 3 discarded
    char cls[256];
    char msg[3072];
    uint32_t nch, overflow;
    uint32_t chn[MAXCH], chv[MAXCH];
    uint64_t hash, steps, events, ileave, switches, simtime, checks;
    uint64_t faults[F_N];
    uint32_t nprobe;
    Probe probe[MAXPROBE];
    uint8_t edges[MAXEDGE];           // accumulates over the worker's runs
    uint32_t nedges;
};
extern Shared *S;
extern bool tracing;

// --- choices
uint32_t choose(uint32_t n, const char *label);          // uniform in [0,n); 0 is the plainest
bool chance(uint32_t num, uint32_t den, const char *label);
uint32_t strat(uint32_t n, const char *label);           // stratified by run index, otherwise as choose
Bytes rbytes(size_t n, const char *label);               // n bytes expanded from one choice (0 => counting bytes)
uint32_t choice_pos();
void reread(uint32_t from);                              // the choices made from there on are made again the same way
size_t rsize(size_t max, const char *label);             // size biased to small and block boundaries
void begin_run(uint64_t seed, uint64_t run, const std::vector<uint32_t> *replay);

// --- results
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // event log (hashed, traced)
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);
void fault(Fault f);
void probe(const char *name);
inline void checked() { S->checks++; }
std::string hex(const unsigned char *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
#define SIM_CHECK(cond, cls, ...) do { sim::checked(); if (!(cond)) sim::violate(cls, __VA_ARGS__); } while (0)

// --- harness sections (no faults, no preemption)
struct Quiet { Quiet(); ~Quiet(); };
struct Uncounted { Uncounted(); ~Uncounted(); };   // quiet, and what is allocated is never a leak

// --- allocation seam
void arm_alloc(long k, bool persist);   // the k-th (0-based) allocation from now fails
bool disarm_alloc();
bool alloc_only_engine();   // every injected failure so far hit an allocation made on behalf of the library under test                    // returns whether it fired
long alloc_seen();                      // allocations since arm (or since count_allocs)
void count_allocs();
struct LiveMark { uint64_t serial; };
LiveMark live_mark();
// blocks allocated since the mark and still live; describes them
size_t live_total();
size_t live_since(LiveMark m, std::string *desc, int maxdesc = 6);
bool scan_live_for(const unsigned char *p, size_t n);   // any live simulated heap block contains p[0..n)?
bool scan_module_for(const char *soname, const unsigned char *p, size_t n); // writable data of module

// --- randomness
extern const RAND_METHOD *rng_forward;  // when set, draws outside Quiet go to this method
extern RAND_METHOD rand_meth;           // simulated RAND method
struct RngPlan {
    uint64_t seed = 1;
    long fail_at = -1;                  // call index at which it starts failing
    long fail_for = 1;                  // how many calls
    int odd = 0;                        // 0 normal 1 zeros 2 ones 3 repeat the same value 4 small values
    long odd_at = 0, odd_for = 1 << 30;
    long calls = 0;
    long budget = 20000;                // more draws than this in one operation: no progress
    long failed = 0;
    std::vector<Bytes> script;          // delivered first, if not empty
    bool fill_on_fail = true;
    bool keep = false; std::vector<Bytes> given;   // what was delivered, if kept
};
extern RngPlan rng;
extern bool rng_count_preempt;

// --- entropy source behind RAND_OpenSSL()
struct SeedPlan {
    uint64_t seed = 1;
    int fail_next = 0;                  // 1: fail, 2: partial write then fail, 3: status 0
    long delivered = 0;                 // successful deliveries
    long calls = 0, status_calls = 0, failures = 0;
    std::vector<Bytes> out;             // what was delivered
    bool per_call = false;              // consult choices on each call
    unsigned per_call_den = 6;
};
extern SeedPlan seedsrc;

// --- clock
struct ClockPlan { bool on = false; int64_t now = 0; std::vector<int64_t> returned; bool jump = false; };
extern ClockPlan clk;

// --- called in the calling thread when a seam is used: 1 seed delivered, 2 seed/lock fault, 3 clock read
extern void (*seam_cb)(int what, int64_t arg);

// --- lock faults
struct LockPlan { long fail_at = -1; long n = 0; bool on = false; bool fired = false; bool per_call = false; int fail_new = 0; long fails = 0; };
extern LockPlan lockplan;

// --- threads
void run_threads(const std::vector<std::function<void()>> &fns, uint32_t preempt_style);
int self();                              // simulated thread id, -1 outside
uint64_t seqno();                        // global event sequence number
void yield_point();
void set_step_budget(uint64_t extra);    // steps from now before "no progress"
uint64_t steps_now();
void set_op(const char *s);
void in_setup(bool on);       // a crash while on ends the worker with 78

// --- streams
struct Stream {                          // what the storage delivers
    Bytes data;
    size_t pos = 0;
    bool seekable = false;
    size_t first = 0;                    // this many bytes at the start are delivered together
    int style = 0;                       // 0 whole reads, 1 byte at a time, 2 random short reads
    long err_at = -1;                    // offset at which reads fail with an error
    long eof_at = -1;                    // premature end of file
    long retry_at = -1;                  // would-block (once or always)
    bool retry_once = false;
    bool closed = false;
    long reads = 0, late_reads = 0;
    bool faulted = false;
    // writing
    Bytes out;
    long cap = -1;                       // storage full after cap bytes
    long werr_at = -1;
    int wstyle = 0;
    unsigned wretry = 0;                 // one write in so many would block
};
BIO *new_bio(Stream *s);                 // simulated BIO (s must outlive it)
FILE *new_file(Stream *s, int bufstyle); // simulated FILE*, read side
// buffer that ends at an unmapped page (style 1) or exact heap block (style 0)
struct Guarded {
    unsigned char *p = nullptr; size_t n = 0; void *map = nullptr; size_t maplen = 0; bool heap = false;
    Guarded(const unsigned char *d, size_t n, int style);
    Guarded(const Bytes &b, int style) : Guarded(b.data(), b.size(), style) {}
    ~Guarded();
    Guarded(const Guarded &) = delete;
};
extern long iconv_open_balance;
extern long iconv_fail_at, iconv_opens;  // fail the n-th open

void core_init();
void streams_init();
[[noreturn]] void end_run();
void new_fill(unsigned char c);          // byte that fresh allocations are filled with
void alloc_sites(bool on);               // record the calling library site of every allocation
size_t owned_leaks(LiveMark m, std::string *desc);
extern FILE *trace_out;
}

// --- system under test
namespace sut {
extern std::string libdir;
extern ENGINE *e;
void load_engine();      // dynamic load + init + nothing set default
ENGINE *dyn_load(int list_add, const char *id = "dstu");
void unload(ENGINE *x);  // unregister, remove, free
void load_keylib();
typedef struct KeyStore_st KeyStore;
extern int (*parseKey6)(const void *, size_t, const char *, size_t, KeyStore **);
extern int (*readKey6)(FILE *, const char *, size_t, KeyStore **);
extern int (*readKey6_bio)(BIO *, const char *, size_t, KeyStore **);
extern int (*parseJKS)(const void *, size_t, const char *, size_t, const char *, size_t, KeyStore **);
extern int (*readJKS)(FILE *, const char *, size_t, const char *, size_t, KeyStore **);
extern int (*readJKS_bio)(BIO *, const char *, size_t, const char *, size_t, KeyStore **);
extern int (*parsePKCS12)(const void *, size_t, const char *, size_t, KeyStore **);
extern int (*readPKCS12)(FILE *, const char *, size_t, KeyStore **);
extern int (*readPKCS12_bio)(BIO *, const char *, size_t, KeyStore **);
extern void (*KeyStoreFree)(KeyStore *);
extern size_t (*KeyStoreKeyNum)(const KeyStore *);
extern size_t (*KeyStoreCertNum)(const KeyStore *);
extern const EVP_PKEY *(*KeyStoreGetKey)(const KeyStore *, size_t);
extern const X509 *(*KeyStoreGetCert)(const KeyStore *, size_t);
}

struct Workload {
    const char *id;
    void (*setup)();       // in the template process, before forking runs
    void (*run)();         // one simulated run
    uint32_t weight_quick, weight_thorough;   // number of runs
};
extern const Workload workloads[];
