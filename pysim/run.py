#!/usr/bin/env python3
"""C15: seeded histories of Python operations on the real extension module.
Called by ../run.py with the same arguments."""
import argparse, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VOTESS_REPO", "/repo")
BUILD = os.path.join(ROOT, "build", "py")

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--time", type=float)
    ap.add_argument("--workers", type=int, default=max(2, min(8, os.cpu_count() or 2))); ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    t0 = time.time()
    r = subprocess.run(["bash", os.path.join(HERE, "build.sh"), BUILD, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        print(r.stdout[-4000:]); print("error: the Python module does not build against " + REPO); sys.exit(2)
    env = dict(os.environ, LD_PRELOAD=os.path.join(BUILD, "libpysim.so"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    py = ["/usr/bin/python3", "-s", os.path.join(HERE, "hist.py")]
    if a.replay:
        sys.exit(subprocess.call(py + [json.dumps({"dir": BUILD, "replay": a.replay})], env=env))
    work = os.path.join(ROOT, "out", "work-C15"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    reps = os.path.join(ROOT, "out", "replay"); os.makedirs(reps, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    kn = []
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"finding: property=C15 class=(\S+) match=(.*?) :: (.*)$", l)
        if m: kn.append(m.groups())
    budget = a.time or (60 if a.tier == "quick" else 1500); ps = []
    for w in range(a.workers):
        out = os.path.join(work, "w%d.json" % w)
        cfg = {"dir": BUILD, "time": budget, "seed": a.seed, "start": w, "stride": a.workers, "out": out, "replays": reps, "stop": os.path.join(work, "stop"), "known": [k[:2] for k in kn]}
        ps.append((out, subprocess.Popen(py + [json.dumps(cfg)], env=env, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT)))
    res, bad = [], []
    for out, p in ps:
        try: rc = p.wait(timeout=budget + 300)
        except subprocess.TimeoutExpired: p.kill(); bad.append("worker did not end"); continue
        try: res.append(json.load(open(out)))
        except Exception: bad.append("worker ended with %s: %s" % (rc, open(out + ".log").read()[-500:]))
    for d in res: bad += d["errors"]
    agg = {}
    for d in res:
        for k, v in d["agg"].items(): agg[k] = agg.get(k, 0) + v
    n = sum(d["n"] for d in res); nont = set().union(*[set(d["nont"]) for d in res]) if res else set(); viol = [d["violation"] for d in res if d["violation"]]
    fired = {k[6:]: agg.get(k, 0) for k in ("fired_alloc", "fired_thread", "fired_dev")}
    search = max([d["wall"] for d in res] or [1])
    ev = {"property": "C15", "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(time.time() - t0, 1), "violations": len(viol),
      "coverage": {"evaluations": n, "distinct_nontrivial": len(nont),
        "rule": "Each case is one history of Python operations drawn from the seed and run in its own forked interpreter. Non-trivial: a row view was read back after being taken, or a call raised because of an injected failure. Distinct by the history's operations.",
        "samples": [s for d in res for s in d["samples"]][:4], "simulated_runs_per_hour": int(n / search * 3600), "faults_injected": fired,
        "operations": {k[3:]: v for k, v in agg.items() if k.startswith("op_")}, "row_views_checked": agg.get("row_reads", 0), "calls_with_a_fault_armed": agg.get("armed_calls", 0),
        "exceptions": {k[4:]: v for k, v in agg.items() if k.startswith("exc_")}, "allocations_served_from_freed_memory": agg.get("reused", 0), "worker_threads_run": agg.get("tasks", 0),
        "interleaving_measure": "distinct histories; worker threads run to completion in seeded order", "simulated_time_s": 0,
        "components": {"real": ["pyvotess (src/pybind11/pyvotess.cpp) and the votess library from /repo's working tree", "CPython and pybind11"],
                       "stub": ["C++ allocator (poison on free, last-in-first-out reuse, failure injection)", "thread creation and joining (run to completion, seeded order)", "SYCL runtime, serial back end"]}},
      "assumptions": ["Python code itself is single threaded (the module holds the interpreter lock throughout a call)"]}
    if viol: ev["coverage"]["violation"] = viol[0]
    json.dump(ev, open(os.path.join(ROOT, "evidence", "C15.json"), "w"), indent=1)
    for i, (c, m, what) in enumerate(kn): print("KNOWN-FINDING: property=C15 %s (met %d times in this run)" % (what, sum(d["known_hits"][i] for d in res)))
    print("C15: %d histories, %d distinct non-trivial, faults %s, %.0f s" % (n, len(nont), fired, time.time() - t0))
    if viol:
        v = min(viol, key=lambda v: os.path.getsize(v["replay"]))
        print("  %s: %s\n  %s" % (v["class"], v["msg"], v["desc"])); print("VIOLATION property=C15 replay=%s" % v["replay"]); sys.exit(1)
    if bad:
        for x in bad[:5]: print("error: " + x)
        sys.exit(2)
    if not n or not nont: print("error: nothing explored"); sys.exit(2)
    sys.exit(0)

main()
