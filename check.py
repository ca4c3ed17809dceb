#!/usr/bin/env python3
"""check.py <property>            decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py build                  build simulator and library only
   check.py replay <file.json>     replay a violation and print its trace"""
import fcntl, hashlib, json, os, re, subprocess, sys, time, glob, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
SUT, PLAIN, SIMX = os.path.join(B, "sut"), os.path.join(B, "plain"), os.path.join(B, "simx")
NW = int(os.environ.get("SIM_WORKERS", "8"))
CXX = "/usr/bin/clang++"

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(plain=False):
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CC=os.path.join(V, "sim", "cc.sh"), CMAKE_GENERATOR="Ninja", LC_ALL="C")
    for k in ("CFLAGS", "LDFLAGS", "CPPFLAGS"):
        env.pop(k, None)
    # the simulator's objects, in parallel with the library
    srcs = sorted(glob.glob(os.path.join(V, "sim", "*.cpp")))
    hdrs = b"".join(open(h, "rb").read() for h in sorted(glob.glob(os.path.join(V, "sim", "*.h"))))
    od = os.path.join(B, "obj")
    os.makedirs(od, exist_ok=True)
    flags = ["-std=c++17", "-O1", "-g1", "-Wall", "-Wno-deprecated-declarations", "-DOPENSSL_SUPPRESS_DEPRECATED", "-I" + os.path.join(V, "sim"), '-DREPO_TESTS="%s"' % os.environ.get("SIM_TESTS", REPO + "/tests")]
    jobs, objs = [], []
    for s in srcs:
        h = hashlib.sha1(hdrs + open(s, "rb").read() + " ".join(flags).encode()).hexdigest()[:16]
        o = os.path.join(od, os.path.basename(s)[:-4] + "." + h + ".o")
        objs.append(o)
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(od, os.path.basename(s)[:-4] + ".*.o")):
                os.unlink(old)
            jobs.append((s, o, subprocess.Popen([CXX, *flags, "-c", s, "-o", o + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for d, e in [(SUT, env)] + ([(PLAIN, dict(env, CC="/usr/bin/gcc"))] if plain else []):
        r = sh(["cmake", "-S", REPO, "-B", d, "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTS=OFF",
                "-U", "HAVE_GF2M_CURVES", "-U", "COPY_2ND_ARG_IS_CONST", "-U", "DECODE_2ND_ARG_IS_CONST"], env=e)
        if r.returncode == 0:
            r = sh(["ninja", "-C", d], env=e)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print("library build failed")
            sys.exit(2)
    for s, o, p in jobs:
        out, _ = p.communicate()
        if p.returncode != 0:
            print(out[-6000:])
            print("simulator build failed:", s)
            sys.exit(2)
        os.rename(o + ".tmp", o)
    tag = hashlib.sha1(" ".join(objs).encode()).hexdigest()
    tagf = SIMX + ".tag"
    if not os.path.exists(SIMX) or not os.path.exists(tagf) or open(tagf).read() != tag:
        r = sh([CXX, "-fsanitize=address", "-rdynamic", "-g1", "-o", SIMX, *objs, "-lcrypto", "-lpthread", "-ldl"])
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("simulator link failed")
            sys.exit(2)
        open(tagf, "w").write(tag)
    lock.close()

def symbolize(cls):
    m = re.search(r"@([\w.]+)\+(0x[0-9a-f]+)", cls)
    if not m:
        return None
    so = glob.glob(os.path.join(SUT, "*", m.group(1)))
    if not so:
        return None
    for tool in ("/usr/bin/llvm-symbolizer-18", "/usr/bin/llvm-symbolizer", "/usr/bin/addr2line"):
        if os.path.exists(tool):
            r = sh([tool, "-f", "-e", so[0], m.group(2)], timeout=30) if "addr2line" in tool else sh([tool, "--obj=" + so[0], m.group(2)], timeout=30)
            return " ".join(r.stdout.split())
    return None

def known(prop):
    """known findings: lines 'KNOWN property=<id> class=<class> <text>'; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) class=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

def worker_cmd(prop, *a):
    return [SIMX, a[0], prop, "--lib", PLAIN if len(prop) > 3 else SUT, *a[1:]]

def env_run():
    e = dict(os.environ, LC_ALL="C", TZ="UTC")
    for k in ("OPENSSL_CONF", "OPENSSL_ENGINES", "MALLOC_PERTURB_", "ASAN_OPTIONS", "SIM_NOREEXEC"):
        e.pop(k, None)
    e["OPENSSL_CONF"] = "/dev/null"
    return e

def replay_choices(prop, choices, tag):
    cf = os.path.join(B, "replay-%s-%d.txt" % (tag, os.getpid()))
    tf = cf + ".trace"
    open(cf, "w").write(" ".join(map(str, choices)))
    r = subprocess.run(worker_cmd(prop, "replay", "--choices", cf, "--out", tf), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env_run(), timeout=600)
    tr = open(tf).read() if os.path.exists(tf) else ""
    for f in (cf, tf):
        if os.path.exists(f):
            os.unlink(f)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1]), tr
    except Exception:
        print(r.stdout, r.stderr)
        return None, tr

def kind(cls):
    m = re.match(r"crash:[^@]*(?:@([\w.]+)\+.*)?", cls)
    return "crash@" + (m.group(1) or "") if m else cls

META = {}
def meta():
    global META
    META = json.load(open(os.path.join(V, "sim", "meta.json")))

# further workloads of a property that run against the library as shipped, built without instrumentation:
# long data, where steps are too many to count
LONG = {"C01": ["C01L"], "C03": ["C03H", "C03L", "C03G"], "C04": ["C04L"]}

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    t0 = time.time()
    if prop == "build":
        build()
        return 0
    if prop == "replay":
        build(plain=True)
        j = json.load(open(sys.argv[2]))
        r, tr = replay_choices(j.get("workload", j["property"]), j["choices"], "manual")
        print(tr)
        if not r:
            return 2
        print("recorded:", j["class"], "hash", j["hash"])
        print("replayed:", r["class"], "hash", r["hash"], r["msg"])
        return 1 if r["status"] == 2 else 0
    meta()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    build(plain=prop in LONG)
    tb = time.time() - t0
    if os.environ.get("SIM_RUNS"):
        runs = int(os.environ["SIM_RUNS"])
    else:
        runs = int(subprocess.run(worker_cmd(prop, "runs", "--tier", tier), stdout=subprocess.PIPE, text=True, env=env_run()).stdout)
    cap = float(os.environ.get("SIM_CAP", "480" if tier == "quick" else "3000"))
    kn = known(prop)
    wd = os.path.join(B, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    ps, jobs = [], []
    for w in LONG.get(prop, []):
        n = int(subprocess.run(worker_cmd(w, "runs", "--tier", tier), stdout=subprocess.PIPE, text=True, env=env_run()).stdout)
        if n:
            jobs.append((w, 0, 1, n))
    for w, i, step, n in jobs + [(prop, i, NW, runs) for i in range(NW)]:
        o = os.path.join(wd, "%s-%d.json" % (w, i))
        c = worker_cmd(w, "worker", "--seed", str(seed), "--from", str(i), "--step", str(step), "--runs", str(n), "--deadline", str(cap), "--out", o)
        if kn:
            c += ["--known", "|".join(kn)]
        if os.environ.get("SIM_KEEP"):
            c += ["--keep", "1"]
        ps.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env_run()), o, w))
    bad, live, stopped = [], list(ps), False
    while live:
        for p in list(live):
            if p[0].poll() is not None:
                live.remove(p)
                if p[0].returncode == 1 and not stopped:
                    stopped = True
                    for q in live:
                        q[0].kill()
                elif p[0].returncode not in (0, 1) and not stopped:
                    bad.append((p[0].returncode, p[0].stdout.read()))
        time.sleep(0.05)
    res = [dict(json.load(open(o)), workload=w) for _, o, w in ps if os.path.exists(o)]
    shutil.rmtree(wd, ignore_errors=True)
    viols = [dict(r["violation"], workload=r["workload"]) for r in res if r["violation"]]
    lost = [r["lost"] for r in res if r.get("lost")]
    if bad and not viols and all(rc == 78 for rc, _ in bad):
        # the library crashed while it was loaded and first used, before any decision: the empty replay
        # repeats it
        a = [subprocess.run(worker_cmd(prop, "replay"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env_run(), timeout=600) for _ in range(2)]
        if all(x.returncode == 78 for x in a):
            path = os.path.join(V, "replays", "%s-seed%d-setup.json" % (prop, seed))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": prop, "seed": seed, "tier": tier, "choices": [], "class": "crash-in-setup", "hash": "", "msg": a[0].stdout[-2000:]}, open(path, "w"), indent=1)
            print(a[0].stdout[-2000:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    if bad and not viols:
        for rc, out in bad:
            print("worker ended with", rc, out[-3000:])
        return 2
    hashes, ile, edges, probes, faults, samples, khits = set(), set(), None, {}, {}, [], {}
    tot = {k: sum(r[k] for r in res) for k in ("runs", "planned", "discarded", "checks", "steps", "switches", "events", "simtime", "choices", "overflow", "nontrivial", "dup_checked", "dup_bad")}
    for r in res:
        hashes |= set(r["hashes"])
        ile |= set(r["ileaves"])
        if r["workload"] == prop:
            edges = [a or b == "1" for a, b in zip(edges or [False] * len(r["edges"]), r["edges"])]
        for d, s in ((probes, "probes"), (faults, "faults"), (khits, "known")):
            for k, v in r[s].items():
                d[k] = d.get(k, 0) + v
        samples += r["samples"]
    simsec = max([r["seconds"] for r in res] or [0.001])
    m = META.get(prop, {})
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(hashes),
        "rule": m.get("rule", "") + " A run is one seeded execution of the workload; non-trivial: at least one injected fault fired or a preemptive switch happened; distinct: by hash of its event history (operations, results, faults, switches).",
        "samples": samples[:3],
        "runs_planned": tot["planned"],
        "runs_set_aside": tot["discarded"],
        "oracle_checks": tot["checks"],
        "simulated_runs_per_hour": int(tot["runs"] / simsec * 3600),
        "seeds": "every run has its own seed, derived from VERIF_SEED and the run number",
        "simulated_time": {"scheduler_steps": tot["steps"], "context_switches": tot["switches"], "logged_events": tot["events"], "virtual_clock_ticks": tot["simtime"], "decisions": tot["choices"]},
        "faults_injected": {k: v for k, v in faults.items() if v},
        "distinct_interleavings": len(ile),
        "interleaving_measure": "hash of the sequence (thread, per-thread step count, next thread) over all context switches of a run",
        "library_edges_reached": sum(edges or []), "library_edges_total": len(edges or []),
        "situations_reached": dict(sorted(probes.items())),
        "determinism": {"runs_repeated": tot["dup_checked"], "mismatches": tot["dup_bad"]},
        "real_code": m.get("real", ["engine module dstu.so", "dstulib", "OpenSSL libcrypto 3.0"]),
        "stubs": m.get("stubs", []),
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["one run is a pure function of (seed, run number, code); every decision is recorded and replayable",
                          "libcrypto itself is trusted as the arithmetic reference; a crash or leak wholly inside one libcrypto call on an injected allocation failure is set aside"] + m.get("assumptions", []),
          "violations": 0, "wall_s": 0}
    rc = 0
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for k, n in sorted(khits.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, kn[k], n))
    if os.environ.get("SIM_KEEP"):
        agg = {}
        for k, v in sorted(probes.items()):
            if k.startswith("VIOLATION"):
                c = (k.split() + ["", ""])[1]
                sy = symbolize(k) or ""
                a = agg.setdefault((c, sy) if sy else c, [0, k])
                a[0] += v
        for c, (n, k) in agg.items():
            print(n, c, k[:400])
    if viols:
        v = sorted(viols, key=lambda x: (not x["reproduced"], len(x["choices"])))[0]
        r, tr = replay_choices(v["workload"], v["choices"], "confirm")
        if not r or r["status"] != 2 or kind(r["class"]) != kind(v["class"]):
            print("a failing run did not reproduce on replay (first: %s: %s; replay: %s)" % (v["first_class"], v["first_msg"], r))
            rc = 2
        else:
            path = os.path.join(V, "replays", "%s-seed%d-run%d.json" % (prop, seed, v["run"]))
            v.update({"property": prop, "seed": seed, "tier": tier, "hash": r["hash"], "class": r["class"], "msg": r["msg"], "where": symbolize(r["class"]),
                      "replay_with": "python3 /verif/check.py replay " + path, "trace": tr.splitlines()[-600:]})
            json.dump(v, open(path, "w"), indent=1)
            print("property %s violated: %s: %s%s" % (prop, r["class"], r["msg"], " at " + v["where"] if v["where"] else ""))
            print("seed %d run %d, %d decisions minimised to %d; exact replay hash %s" % (seed, v["run"], v["choices_before"], len(v["choices"]), r["hash"]))
            for l in tr.splitlines()[-25:]:
                print("   ", l[:240])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            ev["violations"] = 1
            rc = 1
    elif lost:
        print("failing runs that did not repeat (an error of the check, not a violation):", *lost[:5], sep="\n  ")
        rc = 2
    elif tot["runs"] == 0:
        print("no run was executed")
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", prop + ".json")
    json.dump(ev, open(tmp, "w"), indent=1)
    if rc == 0:
        print("%s held on %d runs (%d distinct non-trivial, %d checks, %d edges of %d) in %.0f s" % (prop, tot["runs"], len(hashes), tot["checks"], sum(edges or []), len(edges or []), ev["wall_s"]))
        if tot["dup_bad"]:
            print("note: %d of %d repeated runs differed" % (tot["dup_bad"], tot["dup_checked"]))
    return rc

sys.exit(main())
