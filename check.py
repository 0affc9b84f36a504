#!/usr/bin/env python3
"""Seeded search for violations of one property by deterministic simulation.

usage: check.py PROPERTY            (tier and seed from VERIF_TIER and VERIF_SEED)
       check.py --setup             (builds everything once)
       check.py --replay FILE       (replays a replay file against the current tree)

Exit 0: property held on everything explored; 1: violation (line on stdout);
2: the check itself could not give an answer.
"""
import fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FSIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LOC = os.path.join(BUILD, "loc")
EVID = os.path.join(HERE, "evidence")
SHARDS = 8
NOSTOP = 2 ** 63

# runs of the quick tier and of the thorough tier
RUNS = {
    "C01": (96000, 1600000), "C02": (28000, 700000), "C03": (112000, 1600000), "C04": (128000, 1800000),
    "C05": (112000, 1600000), "C06": (112000, 1600000), "C07": (112000, 1800000), "C08": (44000, 1000000),
    "C09": (128000, 1600000), "C10": (64000, 800000), "C11": (80000, 1500000), "C12": (72000, 1600000),
    "C13": (112000, 1600000), "C14": (64000, 900000), "C15": (48000, 560000),
}
LIMIT = {"quick": 240, "thorough": 780}

RULE = ("Every run is generated from (seed, run number): caller threads with library calls (values and texts from weighted classes: shortest/longest, "
        "subnormal, range limits, halfway cases, special values, damaged texts), injected faults at chosen own steps of chosen calls, and a scheduling policy "
        "(sequential, operation boundaries, random per memory access, PCT priorities, round robin, preemption windows, shared-access biased). "
        "A run is non-trivial if it performed at least one library call and either a thread was preempted inside a library call or at least one fault was injected. "
        "Distinct: different by the hash of workload+faults combined with the hash of the sequence of context switches (thread, call, step, target).")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_key():
    h = hashlib.sha256()
    files = [os.path.join(HERE, "build.sh")]
    for base in (os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_key()
        out = os.path.join(BUILD, "tree-" + key)
        if not os.path.exists(os.path.join(out, "ok")):
            old = sorted((d for d in os.listdir(BUILD) if d.startswith("tree-")), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
            for d in old[:-6]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            r = sh([os.path.join(HERE, "build.sh"), REPO, out])
            if r.returncode:
                print(r.stdout)
                print("check.py: cannot build the simulator against " + REPO)
                sys.exit(2)
            open(os.path.join(out, "ok"), "w").close()
        return out


def fsim(out, variant):
    return [os.path.join(out, "fsim" + variant), LOC]


def pin(i):
    cpus = sorted(os.sched_getaffinity(0))
    return lambda: os.sched_setaffinity(0, {cpus[i % len(cpus)]})


def variant_of(idx, prop):
    """which build a run number is executed with; C has about seven times the steps, budgets of steps and stack do not apply to it"""
    return "C" if idx % SHARDS == SHARDS - 1 and prop not in ("C11", "C15") else "AB"[idx & 1]


def search(out, prop, seed, runs, limit, tmp):
    n = int(prop[1:])
    stop = os.path.join(tmp, "stop")
    with open(stop, "wb") as f:
        f.write(struct.pack("<Q", NOSTOP))
    procs = []
    for i in range(SHARDS):
        o = os.path.join(tmp, "w%d" % i)
        v = variant_of(i, prop)
        p = subprocess.Popen(fsim(out, v) + ["worker", str(n), str(seed), str(i), str(SHARDS), str(runs // 2 if v == "C" else runs), str(limit), stop, o],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=pin(i))
        procs.append((i, o, p))
    total, hashes, samples, viols = {}, set(), [], []
    for i, o, p in procs:
        log, _ = p.communicate()
        if p.returncode:
            print(log)
            print("check.py: worker %d failed" % i)
            for _, _, q in procs:
                q.kill()
            sys.exit(2)
        for line in open(o):
            k, v = line.split()
            total[k] = max(total.get(k, 0), int(v)) if k in ("maxops", "maxstack", "maxheap", "maxheld", "wall_ms") else total.get(k, 0) + int(v)
        b = open(o + ".hashes", "rb").read()
        hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        s = open(o + ".samples").read()
        if s:
            samples.append(s)
        if os.path.exists(o + ".violation"):
            idx, detail = open(o + ".violation").read().split("\n", 1)
            viols.append((int(idx), detail))
    viols.sort()
    return total, hashes, samples, viols


def determinism(out, prop, seed):
    """the same runs twice, in different processes on different CPUs: identical traces?"""
    n, res = int(prop[1:]), []
    ps = []
    for k in range(2):
        for v in "ABC":
            ps.append(subprocess.Popen(fsim(out, v) + ["hashes", str(n), str(seed), "0", "24"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=pin(len(ps) * 3)))
    for p in ps:
        res.append(p.communicate()[0])
    return res[:3] == res[3:], sum(len(r.splitlines()) for r in res[:3])


def replay(out, path):
    m = re.search(r"^# variant (\w)", open(path).read(), re.M)
    return sh(fsim(out, m.group(1) if m else "A") + ["replay", path])


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build()
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = replay(build(), sys.argv[2])
        print(r.stdout)
        return r.returncode
    if len(sys.argv) != 2 or sys.argv[1] not in RUNS:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in LIMIT else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    out = build()
    t_build = time.time() - t0
    tmp = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp)
    try:
        runs = int(os.environ.get("FSIM_RUNS", RUNS[prop][tier == "thorough"]))
        t1 = time.time()
        total, hashes, samples, viols = search(out, prop, seed, runs, LIMIT[tier], tmp)
        t_search = time.time() - t1
        det, ndet = determinism(out, prop, seed) if not viols else (None, 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    code, report = 0, []
    if viols:
        idx, detail = viols[0]
        path = os.path.join(EVID, prop + ".replay")
        if os.path.exists(path):
            os.remove(path)
        r = sh(fsim(out, variant_of(idx, prop)) + ["shrink", str(int(prop[1:])), str(seed), str(idx), path])
        if r.returncode or not os.path.exists(path):
            # not repeatable in the same form: keep seed and run number
            with open(path, "w") as f:
                f.write("# variant %s\n# seed %d run %d (could not be minimised: %s)\n" % (variant_of(idx, prop), seed, idx, r.stdout.strip()))
                f.write(sh(fsim(out, variant_of(idx, prop)) + ["plan", str(int(prop[1:])), str(seed), str(idx)]).stdout)
        reps = [replay(out, path) for _ in range(2)]
        same = reps[0].stdout == reps[1].stdout and reps[0].returncode == 1
        if not any(x.returncode == 1 for x in reps):
            reps = [replay(out, path) for _ in range(6)]
        print("run %d of seed %d: %s" % (idx, seed, detail))
        print("minimised: %s" % r.stdout.strip())
        print("replayed twice in fresh processes: %s" % ("identical traces and violation" if same else "NOT identical"))
        if any(x.returncode == 1 for x in reps):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        else:
            print("check.py: the violation could not be reproduced from its replay file")
            code = 2
        report.append({"run": idx, "detail": detail, "replay": path, "replay_identical": same})
    elif not det:
        print("check.py: runs are not repeatable: the simulator does not control something the library uses")
        code = 2

    wall = time.time() - t0
    g = lambda prefix: {k[len(prefix):]: v for k, v in sorted(total.items()) if k.startswith(prefix) and v}
    variants = {"A": "clang++ -O1, libstdc++ assertions on", "B": "g++ -O2 -DNDEBUG", "C": "clang++ -O0 (every access of the source; one run in 16; not for C11 and C15)"}
    cov = {
        "evaluations": total.get("runs", 0),
        "distinct_nontrivial": len(hashes),
        "rule": RULE,
        "samples": samples[:2] or ["(no run of this invocation was short enough to print)"],
        "runs": total.get("runs", 0),
        "runs_nontrivial": total.get("nontrivial", 0),
        "runs_with_faults": total.get("runs_with_fault", 0),
        "planned_runs": sum((runs // 2 if variant_of(i, prop) == "C" else runs) // SHARDS for i in range(SHARDS)),
        "cut_by_time_limit": bool(total.get("cut", 0)),
        "library_calls": total.get("libops", 0),
        "reference_calls_run_alone": total.get("solo_runs", 0),
        "search_wall_s": round(t_search, 2),
        "build_wall_s": round(t_build, 2),
        "runs_per_hour": int(total.get("runs", 0) / max(t_search, 1e-3) * 3600),
        "seeds": {"base_seed": seed, "one_derived_seed_per_run": total.get("runs", 0), "seeds_per_hour": int(total.get("runs", 0) / max(t_search, 1e-3) * 3600)},
        "simulated_time": {"unit": "ticks: one instrumented memory access, allocation, lock or I/O step each", "executed_ticks": total.get("ticks", 0), "skipped_ticks_of_stalls": total.get("idle_ticks", 0)},
        "context_switches": total.get("switches", 0),
        "longest_conversion_in_ticks": total.get("maxops", 0),
        "largest_conversion_in_bytes": {"stack": total.get("maxstack", 0), "heap": total.get("maxheap", 0), "held_after_a_call": total.get("maxheld", 0)},
        "faults_injected": g("fault."),
        "probes_reached": g("probe."),
        "schedule_policies": g("policy."),
        "distinct_interleavings_measure": "hash of workload, faults and the full sequence of context switches",
        "violations_of_other_properties_seen": g("other."),
        "determinism_selfcheck": {"runs_compared": ndet, "identical": det},
        "components_real": "all of include/floaxie (every header), the C++ standard library, strtod/strtof/wcstod/wcstof (behind a scheduling seam), glibc locales, std::ostream",
        "components_simulated": "thread scheduler, memory allocator, program life (order of phases), floating-point environment of the calls, locks/once/static guards, signal delivery, stream sink, pipe between producer and consumer, new-handler, user's fallback function, clock (ticks)",
        "build_variants": variants,
        "tree": os.path.basename(out),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": len(report),
                   "assumptions": ["interleavings are sequentially consistent and at the granularity of the compiler's instrumented memory accesses",
                                   "code inside libc/libstdc++ objects runs without preemption (seams before and after the calls which matter)",
                                   "glibc strtod/strtof in the C locale are correctly rounded (reference)"],
                   "found": report}, f, indent=1)
        f.write("\n")
    print("%s %s seed %d: %d runs, %d distinct non-trivial, %d ticks, %.1f s (build %.1f s)" % (prop, tier, seed, cov["runs"], cov["distinct_nontrivial"], total.get("ticks", 0), wall, t_build))
    return code


if __name__ == "__main__":
    sys.exit(main())
