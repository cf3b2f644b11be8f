#!/usr/bin/env python3
"""run.py --property Cxx [--tier quick|thorough] [--seed N] [--time S] [--replay FILE]

Builds the simulator against /repo's working tree, searches seeded schedules
and fault sequences for a violation of one property, writes
evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION line;
2: the check itself failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VOTESS_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAY = os.path.join(HERE, "out", "replay")
KNOWN = os.path.join(HERE, "known-findings.txt")
QUICK_S, THOROUGH_S = 90, 1500

COMMON = {
 "real": ["votess library (src/*.ipp, include/*.hpp) as in /repo's working tree, instrumented by the compiler (-fsanitize=thread) against our own runtime",
          "libstdc++ containers, streams and std::thread on top of the simulated pthread layer"],
 "stub": ["thread scheduler, mutexes and condition variables (sim/rt.cpp)", "allocator (sim/rt.cpp): seeded garbage, failure injection, bounds and lifetime tracking"],
}
DEVICE_STUB = "SYCL runtime (sim/include/sycl/sycl.hpp): queue, buffers, accessors, kernels as simulated tasks in seeded order"
FS_STUB = "file system below open/read/write/close (sim/rt.cpp): in-memory files with errors, short and interrupted transfers, full disk"
COMP = {
 "C03": {"stub": [DEVICE_STUB]}, "C09": {"stub": [DEVICE_STUB]}, "C10": {"stub": [DEVICE_STUB]},
 "C11": {"real": ["clvotess (src/main.cpp) from its main() on"], "stub": [FS_STUB, DEVICE_STUB]},
 "C12": {"real": ["clvotess (src/main.cpp) from its main() on", "the kernel's own file size limit and /dev/full produce the output failures"], "stub": [DEVICE_STUB]},
 "C20": {"stub": [DEVICE_STUB]}, "C19": {"stub": [DEVICE_STUB]}, "C13": {"stub": [FS_STUB]}, "C18": {"stub": [FS_STUB]},
}
RULE = ("Each case is one complete simulated execution of a plan drawn from the seed (points, precision, parameters, operations, "
        "machine, faults, schedule). Non-trivial: at least one fault fired or, except for the file and command line properties C11-C13, at "
        "least one scheduling choice differed from the default order. Distinct: by the hash of the plan's inputs, operations and faults "
        "combined with the hash of its sequence of (step, thread) switches.")

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def known(prop):
    """known-findings.txt: 'finding: property=<id> class=<class> match=<text in the message> :: <what fails>'"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l)
            if m and m.group(1) == prop:
                res.append(m.groups())
    return res

def build():
    r = sh(["bash", os.path.join(HERE, "sim", "build.sh"), BUILD, REPO], timeout=600)
    if r.returncode:
        print(r.stdout[-4000:])
        print("error: the simulator does not build against " + REPO)
        sys.exit(2)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--time", type=float)
    ap.add_argument("--workers", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    prop = a.property
    if prop == "C15":
        sys.exit(subprocess.call([sys.executable, os.path.join(HERE, "pysim", "run.py")] + sys.argv[1:]))
    build()
    scen = os.path.join(BUILD, "scen")
    if a.replay:
        sys.exit(subprocess.call([scen, "replay", a.replay]))
    budget = a.time or (QUICK_S if a.tier == "quick" else THOROUGH_S)
    work = os.path.join(HERE, "out", "work-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kn = known(prop)
    kf = os.path.join(work, "known")
    with open(kf, "w") as f:
        for p, c, m, _ in kn:
            f.write("%s|%s|%s\n" % (p, c, m))
    procs = []
    for w in range(a.workers):
        out = os.path.join(work, "w%d.json" % w)
        procs.append((out, subprocess.Popen(
            [scen, "run", "--prop", prop, "--seed", str(a.seed), "--start", str(w), "--stride", str(a.workers),
             "--count", "1000000000", "--time", str(budget), "--out", out, "--replays", REPLAY, "--known", kf, "--stop", os.path.join(work, "stop")],
            stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT)))
    res, bad = [], []
    for out, p in procs:
        try:
            rc = p.wait(timeout=budget + 300)
        except subprocess.TimeoutExpired:
            p.kill(); bad.append("worker did not end"); continue
        try:
            d = json.load(open(out))
        except Exception as e:
            bad.append("worker ended with %s and no result: %s" % (rc, open(out + ".log").read()[-500:])); continue
        res.append(d); bad += d["errors"]
    tot = lambda k: sum(d[k] for d in res)
    merge = lambda k: {n: sum(d[k][n] for d in res) for n in (res[0][k] if res else {})}
    sigs = set().union(*[set(d["sigs"]) for d in res]) if res else set()
    nont = set().union(*[set(d["nontrivial"]) for d in res]) if res else set()
    viol = [d["violation"] for d in res if "violation" in d]
    wall = time.time() - t0
    runs = tot("runs")
    comp = {k: COMMON[k] + COMP.get(prop, {}).get(k, []) for k in COMMON}
    fired = {k: v for k, v in merge("fired").items() if v}
    search = max([d["wall"] for d in res] or [1])
    ev = {
      "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 1), "violations": len(viol),
      "coverage": {
        "evaluations": runs, "distinct_nontrivial": len(nont), "rule": RULE, "samples": [s for d in res for s in d["samples"]][:6],
        "plans": tot("plans"), "reference_executions": tot("baselines"),
        "simulated_runs_per_hour": int(runs / search * 3600), "plan_seeds_per_hour": int(tot("plans") / search * 3600),
        "simulated_time_s": round(tot("sim_ns") / 1e9, 3), "scheduling_steps": tot("steps"), "context_switches": tot("switches"),
        "threads_run": tot("threads"), "most_threads_in_one_run": max([d["peak_threads"] for d in res] or [0]),
        "faults_injected": fired, "fault_points_reached": {k: v for k, v in merge("reached").items() if v},
        "distinct_interleavings": len(sigs),
        "interleaving_measure": "per plan, the hash of the sequence of (step, thread) context switches taken",
        "schedule_strategies": {k: v for k, v in merge("strategies").items() if v},
        "probes": {k: v for k, v in merge("probes").items() if v},
        "plans_without_usable_reference": tot("inconclusive"),
        "components": comp,
      },
      "assumptions": ["schedules are sequentially consistent at the granularity of instrumented memory accesses; weak-memory effects show up only as reported races",
                      "point sets of up to 66130 points (most below 120); exact comparison against the geometric model only where the cell is numerically robust"],
    }
    if viol:
        ev["coverage"]["violation"] = viol[0]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    hits = [sum(d["known_hits"][i] for d in res) for i in range(len(kn))]
    for (p, c, m, what), h in zip(kn, hits):
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (p, what, h))
    print("%s: %d plans, %d simulated runs, %d distinct non-trivial, faults %s, %.0f s" % (prop, tot("plans"), runs, len(nont), fired, wall))
    if viol:
        v = min(viol, key=lambda v: os.path.getsize(v["replay"]))
        print("  %s: %s\n  %s" % (v["class"], v["msg"], v["desc"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        sys.exit(1)
    if bad:
        for b in bad[:5]:
            print("error: " + b)
        sys.exit(2)
    if runs == 0 or len(nont) == 0:
        print("error: nothing explored"); sys.exit(2)
    sys.exit(0)

main()
