// Worker: forks one process per simulated run, collects what happened, shrinks failures, replays files.
#include "sim.h"
#include "common.h"
#include <cerrno>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <set>
#include <algorithm>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <openssl/crypto.h>
using namespace sim;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string js(const char *s)
{
    std::string o = "\"";
    for (; *s; s++)
    {
        unsigned char c = (unsigned char) *s;
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

static const Workload *W;
static uint64_t seed = 1;

// runs one simulated run in a child; false if the child died unaccountably
static void one(uint64_t run, const std::vector<uint32_t> *rv, FILE *trace)
{
    S->status = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(77); }
    if (p == 0)
    {
        if (trace) { tracing = true; trace_out = trace; }
        begin_run(seed, run, rv);
        W->run();
        end_run();
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == 0)
    {
        S->status = 2;
        if (WIFSIGNALED(st)) { snprintf(S->cls, sizeof S->cls, "died:signal-%d", WTERMSIG(st)); snprintf(S->msg, sizeof S->msg, "the process died of signal %d", WTERMSIG(st)); }
        else { snprintf(S->cls, sizeof S->cls, "died:exit-%d", WEXITSTATUS(st)); snprintf(S->msg, sizeof S->msg, "the process exited with %d in the middle of a run", WEXITSTATUS(st)); }
    }
}

static std::string kind(const char *cls)
{
    // crash site offsets may move while shrinking; the kind of failure may not
    std::string s = cls;
    size_t p = s.find('@');
    if (s.compare(0, 6, "crash:") == 0) return p == std::string::npos ? "crash" : "crash@" + s.substr(p + 1, s.find('+', p) - p - 1);
    return s;
}

static bool fails(const std::vector<uint32_t> &v, const std::string &k, std::vector<uint32_t> *used)
{
    one(0, &v, nullptr);
    if (S->status != 2 || kind(S->cls) != k) return false;
    if (used) { size_t n = S->nch; used->assign(S->chv, S->chv + std::min<size_t>(n, MAXCH)); if (used->size() > v.size()) used->resize(v.size()); }
    return true;
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> v, const std::string &k, double budget, long *tries)
{
    double end = now() + budget;
    std::vector<uint32_t> u;
    auto attempt = [&](const std::vector<uint32_t> &c) { ++*tries; if (fails(c, k, &u)) { v = u; while (!v.empty() && v.back() == 0) v.pop_back(); return true; } return false; };
    bool progress = true;
    while (progress && now() < end)
    {
        progress = false;
        for (size_t cut = v.size() / 2; cut >= 1 && now() < end; cut /= 2)   // cut the tail
            while (v.size() >= cut && now() < end) { std::vector<uint32_t> c(v.begin(), v.end() - cut); if (!attempt(c)) break; progress = true; }
        for (size_t len = v.size() / 2; len >= 1 && now() < end; len /= 2)   // delete chunks
            for (size_t i = 0; i + len <= v.size() && now() < end;)
            { std::vector<uint32_t> c = v; c.erase(c.begin() + i, c.begin() + i + len); if (attempt(c)) progress = true; else i += len; }
        for (size_t len = std::max<size_t>(v.size() / 2, 1); len >= 1 && now() < end; len /= 2)   // zero chunks
            for (size_t i = 0; i < v.size() && now() < end; i += len)
            {
                std::vector<uint32_t> c = v; bool any = false;
                for (size_t j = i; j < i + len && j < c.size(); j++) { any |= c[j] != 0; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        for (size_t i = 0; i < v.size() && now() < end; i++)   // lower single values
            while (i < v.size() && v[i] > 0 && now() < end)
            {
                std::vector<uint32_t> c = v; c[i] = v[i] / 2;
                if (attempt(c)) { progress = true; continue; }
                if (i < v.size() && v[i] > 1) { c = v; c[i] = v[i] - 1; if (attempt(c)) { progress = true; continue; } }
                break;
            }
    }
    return v;
}

static std::string slurp(FILE *f)
{
    std::string s; char b[4096]; size_t n;
    rewind(f);
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    return s;
}
static std::string trace_json(const std::string &s, size_t maxl, size_t maxc = 400)
{
    std::string o = "["; size_t i = 0, n = 0; std::vector<std::string> L;
    while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); L.push_back(s.substr(i, std::min(e - i, maxc))); i = e + 1; }
    for (size_t k = 0; k < L.size(); k++)
    {
        if (L.size() > maxl && k >= maxl / 2 && k < L.size() - maxl / 2) { if (k == maxl / 2) { o += (n++ ? "," : ""); o += "\"...\""; } continue; }
        o += (n++ ? "," : ""); o += js(L[k].c_str());
    }
    return o + "]";
}

extern const Workload workloads[];

int main(int argc, char **argv)
{
    if (!getenv("SIM_NOREEXEC"))
    {
        setenv("SIM_NOREEXEC", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    core_init();
    std::string cmd = argc > 1 ? argv[1] : "", id = argc > 2 ? argv[2] : "", out, replay, known;
    uint64_t from = 0, stepn = 1, runs = 0; double deadline = 600; bool thorough = false; bool keep = false; long onerun = -1;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--from") from = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--step") stepn = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--runs") runs = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--deadline") deadline = atof(v.c_str());
        else if (a == "--out") out = v;
        else if (a == "--lib") sut::libdir = v;
        else if (a == "--tier") thorough = v == "thorough";
        else if (a == "--choices") replay = v;
        else if (a == "--known") known = v;
        else if (a == "--keep") keep = v == "1";
        else if (a == "--run") onerun = atol(v.c_str());
    }
    for (W = workloads; W->id; W++) if (id == W->id) break;
    if (!W->id) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 77; }
    if (cmd == "runs") { printf("%u\n", thorough ? W->weight_thorough : W->weight_quick); return 0; }
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_LOAD_CRYPTO_STRINGS | OPENSSL_INIT_ADD_ALL_CIPHERS | OPENSSL_INIT_ADD_ALL_DIGESTS, nullptr);
    streams_init();
    warm_libcrypto();
    in_setup(true);
    W->setup();
    in_setup(false);

    if (cmd == "replay")
    {
        std::vector<uint32_t> v;
        if (!replay.empty())
        {
            FILE *f = fopen(replay.c_str(), "r");
            if (!f) { perror(replay.c_str()); return 77; }
            unsigned long x; while (fscanf(f, "%lu", &x) == 1) v.push_back((uint32_t) x);
            fclose(f);
        }
        FILE *t = out.empty() ? stderr : fopen(out.c_str(), "w+");
        one(onerun >= 0 ? onerun : 0, onerun >= 0 ? nullptr : &v, t);
        printf("{\"status\":%u,\"class\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"nch\":%u,\"choices\":[", S->status, js(S->cls).c_str(), js(S->msg).c_str(), (unsigned long long) S->hash, S->nch);
        if (onerun >= 0) for (uint32_t i = 0; i < S->nch; i++) printf("%s%u", i ? "," : "", S->chv[i]);
        printf("]}\n");
        return S->status == 2 ? 1 : 0;
    }

    // worker
    double t0 = now();
    uint64_t done = 0, discarded = 0, checks = 0, steps = 0, switches = 0, events = 0, simtime = 0, dup_checked = 0, dup_bad = 0, nontriv = 0, choices = 0, overflow = 0;
    uint64_t faults[F_N] = {0};
    std::map<std::string, uint64_t> probes, knownhits;
    std::set<uint64_t> hashes, ileaves;
    std::string samples;
    int nsamples = 0;
    std::string viol, lost;
    uint64_t r = from;
    for (; r < runs; r += stepn)
    {
        if (now() - t0 > deadline) break;
        one(r, nullptr, nullptr);
        done++;
        if (S->status == 2)
        {
            std::string cls = S->cls;
            if (!known.empty() && ("|" + known + "|").find("|" + cls + "|") != std::string::npos) { knownhits[cls]++; continue; }
            if (keep) { probes["VIOLATION " + cls + " " + std::string(S->msg, strnlen(S->msg, 700)) + " run=" + std::to_string(r)] = 1; continue; }
            std::vector<uint32_t> v(S->chv, S->chv + S->nch);
            std::string k = kind(S->cls), msg0 = S->msg;
            uint32_t before = S->nch;
            bool rep = fails(v, k, nullptr);
            if (S->status != 2 && lost.empty())
            {
                // not repeatable: never reported as a violation; the search goes on
                lost = "run " + std::to_string(r) + ": " + cls + ": " + msg0;
                continue;
            }
            if (S->status != 2) continue;
            long tries = 0;
            static const double shrink_for = getenv("SIM_NOMIN") ? 0 : 45;
            std::vector<uint32_t> m = rep ? shrink(v, k, shrink_for, &tries) : v;
            FILE *t = tmpfile();
            one(0, &m, t);
            std::string tr = slurp(t);
            fclose(t);
            std::string cj = "[";
            for (size_t i = 0; i < m.size(); i++) { if (i) cj += ","; cj += std::to_string(m[i]); }
            cj += "]";
            char b[256];
            snprintf(b, sizeof b, "{\"run\":%llu,\"reproduced\":%s,\"choices_before\":%u,\"shrink_tries\":%ld,\"hash\":\"%016llx\",", (unsigned long long) r, S->status == 2 ? "true" : "false", before, tries, (unsigned long long) S->hash);
            viol = std::string(b) + "\"first_class\":" + js(cls.c_str()) + ",\"first_msg\":" + js(msg0.c_str()) + ",\"class\":" + js(S->status == 2 ? S->cls : cls.c_str()) + ",\"msg\":" + js(S->status == 2 ? S->msg : msg0.c_str()) + ",\"choices\":" + cj + ",\"trace\":" + trace_json(tr, 400) + "}";
            break;
        }
        if (S->status == 3) discarded++;
        checks += S->checks; steps += S->steps; switches += S->switches; events += S->events; simtime += S->simtime; choices += S->nch; overflow += S->overflow;
        bool nt = S->switches > 1;
        for (int i = 0; i < F_N; i++) { faults[i] += S->faults[i]; if (S->faults[i]) nt = true; }
        for (uint32_t i = 0; i < S->nprobe; i++) probes[S->probe[i].name] += S->probe[i].n;
        if (nt) { nontriv++; hashes.insert(S->hash); }
        if (S->switches) ileaves.insert(S->ileave);
        uint64_t h = S->hash; uint32_t st = S->status, nc = S->nch;
        if (done % 61 == 5)
        {
            one(r, nullptr, nullptr);
            dup_checked++;
            if (S->hash != h || S->status != st || S->nch != nc) dup_bad++;
        }
        if (nsamples < 2 && nt && (done > 20 || done * stepn + stepn > runs))
        {
            FILE *t = tmpfile();
            one(r, nullptr, t);
            samples += std::string(nsamples++ ? "," : "") + "{\"run\":" + std::to_string(r) + ",\"trace\":" + trace_json(slurp(t), 24, 160) + "}";
            fclose(t);
        }
    }
    FILE *o = fopen(out.c_str(), "w");
    if (!o) { perror(out.c_str()); return 77; }
    fprintf(o, "{\"runs\":%llu,\"planned\":%llu,\"discarded\":%llu,\"checks\":%llu,\"steps\":%llu,\"switches\":%llu,\"events\":%llu,\"simtime\":%llu,\"choices\":%llu,\"overflow\":%llu,\"nontrivial\":%llu,\"dup_checked\":%llu,\"dup_bad\":%llu,\"seconds\":%.3f,\"faults\":{",
            (unsigned long long) done, (unsigned long long) (runs > from ? (runs - from + stepn - 1) / stepn : 0), (unsigned long long) discarded, (unsigned long long) checks, (unsigned long long) steps, (unsigned long long) switches, (unsigned long long) events,
            (unsigned long long) simtime, (unsigned long long) choices, (unsigned long long) overflow, (unsigned long long) nontriv, (unsigned long long) dup_checked, (unsigned long long) dup_bad, now() - t0);
    for (int i = 0; i < F_N; i++) fprintf(o, "%s%s:%llu", i ? "," : "", js(fault_names[i]).c_str(), (unsigned long long) faults[i]);
    fprintf(o, "},\"probes\":{");
    { int c = 0; for (auto &p : probes) fprintf(o, "%s%s:%llu", c++ ? "," : "", js(p.first.c_str()).c_str(), (unsigned long long) p.second); }
    fprintf(o, "},\"known\":{");
    { int c = 0; for (auto &p : knownhits) fprintf(o, "%s%s:%llu", c++ ? "," : "", js(p.first.c_str()).c_str(), (unsigned long long) p.second); }
    fprintf(o, "},\"hashes\":[");
    { int c = 0; for (auto h : hashes) fprintf(o, "%s\"%llx\"", c++ ? "," : "", (unsigned long long) h); }
    fprintf(o, "],\"ileaves\":[");
    { int c = 0; for (auto h : ileaves) fprintf(o, "%s\"%llx\"", c++ ? "," : "", (unsigned long long) h); }
    fprintf(o, "],\"edges_total\":%u,\"edges\":\"", S->nedges);
    for (uint32_t i = 1; i <= S->nedges && i < MAXEDGE; i++) fputc(S->edges[i] ? '1' : '0', o);
    fprintf(o, "\",\"samples\":[%s],\"lost\":%s,\"violation\":%s}\n", samples.c_str(), js(lost.c_str()).c_str(), viol.empty() ? "null" : viol.c_str());
    fclose(o);
    return viol.empty() ? 0 : 1;
}
