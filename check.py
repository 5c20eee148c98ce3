#!/usr/bin/env python3
"""Driver of the checks.

  check.py build [VARIANT...]         build simulator variants from /repo's working tree
  check.py run ID [--tier T] [--seed N]   decide one property
  check.py replay FILE [-v]           replay a recorded violation
  check.py selftest                   determinism self-test over all workloads
Exit codes of `run`: 0 held on everything explored, 1 violation, 2 error of the check.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NPYSIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
WORKERS = int(os.environ.get("NPYSIM_WORKERS", "8"))

# property -> passes: (variant, workload, quick runs, quick seconds, thorough runs, thorough seconds, options)
Q, T = 50, 420
PLAN = {
    "C01": [("plain", "C01", 400000, Q, 2000000, T, {}), ("bare", "C01G", 14, 120, 100, 900, {"workers": 2, "wall": 600})],
    "C02": [("plain", "C02", 400000, Q, 2000000, T, {})],
    "C03": [("plain", "C03", 400000, Q, 2000000, T, {})],
    "C04": [("plain", "C04", 400000, Q, 4000000, T, {})],
    "C05": [("plain", "C05", 400000, Q, 4000000, T, {})],
    "C06": [("plain", "C06", 400000, Q, 4000000, T, {})],
    "C07": [("plain", "C07", 400000, Q, 4000000, T, {})],
    "C08": [("plain", "C08", 400000, 30, 4000000, T, {}), ("asan", "C08", 400000, 30, 2000000, T, {})],
    "C09": [("tsan", "C09", 200000, Q, 1000000, T, {})],
    "C10": [("plain", "C10", 400000, 30, 4000000, T, {}), ("asan", "C10", 400000, 20, 1000000, T, {})],
    "C11": [("plain", "C11", 400000, Q, 2000000, T, {})],
    "C12": [("plain", "C12", 400000, Q, 4000000, T, {})],
    "C13": [("plain", "C13", 400000, Q, 4000000, T, {})],
    "C14": [("plain", "C14", 400000, Q, 4000000, T, {})],
    "C15": [("plain", "C15", 400000, Q, 2000000, T, {}), ("plain", "C15E", 0, 0, 64, 30, {})],
    "C20": [("plain", "C20", 400000, 30, 4000000, T, {}), ("asan", "C20", 400000, 20, 1000000, T, {}), ("bare", "C20G", 16, 60, 200, 600, {"workers": 2, "wall": 600})],
    "C16": [("bare", "C16", 48, 300, 600, 1500, {"workers": 6, "wall": 600})],
}
RULES = {
    "C01": "a run is a drawn history of saves, overwrites, loads and peeks of drawn tensors over drawn delivery schedules; non-trivial when at least one load was compared with its model",
    "C02": "a run is a drawn history over several archive writers and readers, names and delivery schedules; non-trivial when a reader was compared with the map model",
    "C03": "a run writes drawn tensors and archives and decodes the bytes with the independent strict reader; non-trivial when at least one output was decoded",
    "C04": "a run plays the NumPy peer: drawn files in NumPy's styles, delivered under a drawn schedule, interleaved with unsupported files; non-trivial when such a file was compared",
    "C05": "a run saves or archives under drawn open/write/seek/close faults and disk limits; non-trivial when an injected error fired during a library operation",
    "C06": "a run reads a file cut short or failing at drawn points; non-trivial when the input was really short or an injected read error fired",
    "C07": "a run damages or tears an archive (crash prefix, blocks, bits) and reads it; non-trivial when the damaged bytes differ from the intact ones or a read error fired",
    "C08": "a run feeds drawn adversarial bytes to load, peek and the readers under memory and step budgets; non-trivial when the input was malformed",
    "C09": "a run is 2-4 simulated threads with drawn operations under a drawn interleaving; non-trivial when at least two context switches happened inside library operations",
    "C10": "a run fails drawn allocations inside drawn operations; non-trivial when an injected allocation failure fired",
    "C11": "a run repeats a drawn plan of operations and faults and compares what stays allocated or open; non-trivial when the plan had at least one operation that allocated",
    "C12": "a run makes reader, load and save operations fail and retries after the fault; non-trivial when an operation failed before the retry",
    "C13": "a run is a drawn history of writes, rejected writes, closes and destructions of several writers; non-trivial when a finished archive was decoded",
    "C14": "a run saves arrays and foreign bytes into one stream and reads them back in sequence; non-trivial when an array was read from the shared stream",
    "C15": "a run performs one drawn plan in two drawn environments and compares all bytes and results; non-trivial when the two environments differ",
    "C20": "a run is a drawn history of operations on several tensor objects, allocations failing in some, against plain values; non-trivial when values changed after the first step",
    "C16": "a run builds one archive at or past a format limit on a sparse simulated disk; non-trivial when a limit was reached",
}
ASSUME = [
    "the C++ runtime, zlib (used by the independent decoder) and the simulator's file system behave as documented",
    "a clean batch of seeded runs is evidence over the sampled schedules and faults, not a proof",
]
REAL = "real code: all of libnpy (npy.h templates, npy.cpp, dtype.cpp, npz.cpp, zip.cpp, tensor.cpp, miniz) and libstdc++ streams; stubs: file system and libc file calls (in-memory, fault-injecting), wall clock, caller stream buffers, allocator front end"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src", "include", "cmake"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    files += [os.path.join(REPO, f) for f in ("CMakeLists.txt", "VERSION")]
    for f in files:
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO).encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, variant)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(d, "tree")
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        t0 = time.time()

        def sh(*c):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                log(r.stdout[-6000:])
                raise RuntimeError("build step failed: " + " ".join(c))

        if not os.path.exists(os.path.join(d, "build.ninja")):
            sh("cmake", "-S", os.path.join(HERE, "sim"), "-B", d, "-G", "Ninja", "-DVARIANT=" + variant, "-DREPO=" + REPO,
               "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++")
        if have and have != want:  # content decides, not time stamps
            sh("ninja", "-C", d, "-t", "clean", "npy", "typed")
        if os.path.exists(stamp):
            os.unlink(stamp)
        sh("ninja", "-C", d, "npysim")
        open(stamp, "w").write(want)
        log("built %s in %.1f s" % (variant, time.time() - t0))
    return os.path.join(d, "npysim")


def search(exe, wl, seed, runs, secs, out, opts):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    n = min(WORKERS, opts.get("workers", WORKERS))
    procs = []
    for k in range(n):
        cmd = [exe, "search", "--prop", wl, "--seed", str(seed), "--runs", str(runs), "--secs", str(secs), "--worker", str(k),
               "--workers", str(n), "--out", out, "--max-violations", "2", "--shrink-secs", "20", "--wall", str(opts.get("wall", 120))]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_odr_violation=0:handle_abort=1:symbolize=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:symbolize=0"
        procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(out, "log.%d" % k), "w")))
    fails = []
    for k, p in enumerate(procs):
        try:
            p.wait(timeout=secs + opts.get("wall", 120) + 180)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            fails.append("worker %d timed out" % k)
            continue
        if p.returncode:
            fails.append("worker %d ended with %d: %s" % (k, p.returncode, open(os.path.join(out, "log.%d" % k)).read()[-300:]))
    return collect(out, n, fails)


def collect(out, n, fails):
    S = {"n": {}, "counter": {}, "cov": set(), "hash": set(), "nthash": set(), "sig": set(), "violclass": [], "violation": [], "sample": [],
         "errmsg": [], "fails": fails}
    for k in range(n):
        f = os.path.join(out, "stats.%d" % k)
        lines = open(f).read().split("\n") if os.path.exists(f) else []
        if "end" not in lines[-3:]:
            S["fails"].append("worker %d left no complete statistics" % k)
        for l in lines:
            if l.startswith("violation\t"):
                S["violation"].append(l.split("\t")[1:])
                continue
            a = l.split(" ", 1)
            if len(a) < 2:
                continue
            key, v = a
            if key == "counter":
                name, c = v.split(" ")
                S["counter"][name] = S["counter"].get(name, 0) + int(c)
            elif key in ("cov", "hash", "nthash", "sig"):
                S[key].add(v)
            elif key in ("violclass", "sample", "errmsg"):
                S[key].append(v)
            else:
                S["n"][key] = S["n"].get(key, 0) + (float(v) if "." in v or "e" in v else int(v))
    return S


def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m:
                known.append(m.groups())
    return known


def replay(exe, f, verbose=False):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_odr_violation=0:handle_abort=1:symbolize=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:symbolize=0"
    r = subprocess.run([exe, "replay", f] + (["-v"] if verbose else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def run(pid, tier, seed):
    t0 = time.time()
    known = [k for k in load_known() if k[0] == pid]
    tot = None
    viols, errors, per_pass, hits = [], [], [], {}
    for (variant, wl, qr, qs, tr, ts, opts) in PLAN[pid]:
        if tier == "quick" and not qr:
            continue
        exe = build(variant)
        runs, secs = (qr, qs) if tier == "quick" else (tr, ts)
        if "NPYSIM_SECS" in os.environ:  # for experiments only
            runs, secs = (12, secs) if wl in ("C16", "C01G", "C20G") else (runs, float(os.environ["NPYSIM_SECS"]))
        out = os.path.join(BUILD, "out", "%s-%s-%d" % (pid, variant, os.getpid()))
        t1 = time.time()
        S = search(exe, wl, seed, runs, secs, out, opts)
        wall = time.time() - t1
        n = S["n"]
        per_pass.append({
            "variant": variant, "runs": n.get("done", 0), "wall_s": round(wall, 1),
            "runs_per_hour": int(n.get("done", 0) * 3600 / max(wall, 0.001)), "seeds_per_hour": int(n.get("done", 0) * 3600 / max(wall, 0.001)),
            "nontrivial_runs": n.get("nontrivial", 0), "distinct_executions": len(S["hash"]), "distinct_nontrivial_executions": len(S["nthash"]),
            "distinct_behaviour_signatures": len(S["sig"]), "library_edge_slots_reached": len(S["cov"]),
            "simulated_seconds": round(n.get("sim_seconds", 0), 3), "library_operations": n.get("libops", 0), "system_calls": n.get("syscalls", 0),
            "library_allocations": n.get("allocs", 0), "library_steps": n.get("steps", 0), "context_switches": n.get("switches", 0),
            "choices_drawn": n.get("choices", 0), "repeat_runs_same_seed": n.get("rechecked", 0), "repeat_mismatches": n.get("mismatches", 0),
            "faults_and_probes": {k: v for k, v in sorted(S["counter"].items())}, "samples": S["sample"][:4]})
        if n.get("errors", 0):
            errors.append("%d runs ended in a simulator error: %s" % (n["errors"], "; ".join(S["errmsg"][:3])))
        if n.get("mismatches", 0):
            errors.append("%d runs did not repeat: %s" % (n["mismatches"], "; ".join(S["errmsg"][:3])))
        errors += S["fails"]
        for (f, cls, msg) in S["violation"]:
            k = next((k for k in known if k[1] == cls and re.search(k[2], msg)), None)
            if k:
                hits[k] = hits.get(k, 0) + 1
                continue
            rd = os.path.join(BUILD, "replays")
            os.makedirs(rd, exist_ok=True)
            dst = os.path.join(rd, "%s-%s-%s" % (pid, variant, os.path.basename(f)))
            body = open(f, errors="surrogateescape").read()
            with open(dst, "w", errors="surrogateescape") as o:
                o.write("# variant " + variant + "\n" + body)
            codes = [replay(exe, dst)[0] for _ in range(2)]
            if codes == [1, 1]:
                viols.append((dst, cls, msg, variant))
            else:
                errors.append("violation %s did not replay in a fresh process (%s): %s" % (cls, codes, dst))
        shutil.rmtree(out, ignore_errors=True)
        if viols:
            break
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    cov = {
        "evaluations": sum(p["runs"] for p in per_pass),
        "distinct_nontrivial": sum(p["distinct_nontrivial_executions"] for p in per_pass),
        "rule": RULES[pid] + "; distinct by the hash of the complete event log (operations, system calls, faults, results)",
        "samples": [s for p in per_pass for s in p["samples"]][:6] or ["(no sample)"],
        "passes": per_pass, "components": REAL,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")
    for p in per_pass:
        log("%s %s: %d runs (%d non-trivial distinct) in %.0f s" % (pid, p["variant"], p["runs"], p["distinct_nontrivial_executions"], p["wall_s"]))
    if viols:
        for (dst, cls, msg, variant) in viols:
            print("  %s (%s): %s" % (cls, variant, msg))
        print("VIOLATION property=%s replay=%s" % (pid, viols[0][0]), flush=True)
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    if not cov["evaluations"]:
        print("ERROR: no run was made")
        return 2
    return 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "build":
        for v in argv[1:] or ["plain", "asan", "tsan", "bare"]:
            build(v)
        return 0
    if argv[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        for i, a in enumerate(argv):
            if a == "--tier":
                tier = argv[i + 1]
            if a == "--seed":
                seed = int(argv[i + 1])
        try:
            return run(argv[1], tier, seed)
        except RuntimeError as e:
            print("ERROR: %s" % e)
            return 2
    if argv[0] == "replay":
        first = open(argv[1], errors="replace").readline()
        m = re.match(r"# variant (\S+)", first)
        exe = build(m.group(1) if m else "plain")
        code, text = replay(exe, os.path.abspath(argv[1]), "-v" in argv)
        sys.stdout.write(text)
        return code
    if argv[0] == "selftest":
        return selftest()
    print(__doc__)
    return 2


def selftest():
    """Same seeds, different worker counts and separate processes: identical event logs."""
    bad = 0
    for pid, passes in PLAN.items():
        for (variant, wl, *_r, opts) in passes:
            if wl in ("C16", "C01G", "C20G"):
                continue
            exe = build(variant)
            sets = []
            for w in (1, 3, 8):
                out = os.path.join(BUILD, "out", "selftest")
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                ps = [subprocess.Popen([exe, "search", "--prop", wl, "--seed", "77", "--runs", "240", "--secs", "600", "--worker", str(k), "--workers",
                                        str(w), "--out", out]) for k in range(w)]
                for p in ps:
                    p.wait()
                S = collect(out, w, [])
                sets.append((frozenset(S["hash"]), S["n"].get("done"), S["n"].get("mismatches")))
            ok = all(s == sets[0] for s in sets) and not sets[0][2]
            print("%s %s: %s distinct logs over %s runs, %s" % (pid, variant, len(sets[0][0]), sets[0][1], "identical" if ok else "DIFFERENT"))
            bad += not ok
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
