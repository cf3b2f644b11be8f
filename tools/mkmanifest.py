#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation, seeded schedule and fault search"
N = {
 "C01": "Seeded search over worker interleavings, thread counts and reported hardware concurrency; every run compared exactly with the one-thread run, and that run with an exact-arithmetic-checked Voronoi model on numerically robust cells. Trusts the simulator, the model and the compiler's access instrumentation.",
 "C02": "Seeded search over chunk sizes, threads and schedules; exact comparison with the unchunked execution. Same trust as C01.",
 "C03": "Seeded search over starting budgets, chunking, threads and schedules (device included); rows compared with the full Voronoi model on robust cells. Same trust as C01.",
 "C04": "Vector-clock race detection and byte-exact bounds, lifetime and initialisation tracking of every instrumented access on every explored schedule; memory pre-filled with seeded garbage. Accesses inside uninstrumented libstdc++ code are seen only through intercepted calls.",
 "C05": "Seeded search over overlapping calls of several callers; exact comparison with each call alone and detection of races between calls.",
 "C06": "Seeded search over overlapping and failing calls with allocation and thread creation failures; the bytes on standard output and the stream's state are compared with what the program wrote.",
 "C07": "Seeded search over failing allocations and thread creations (single, pairs, repeated) under seeded schedules, three faulty attempts and one clean retry; leaks, lost points, left workers and wrong results detected.",
 "C08": "Seeded search over histories of calls; each outcome compared with the same call alone in a fresh process.",
 "C09": "The device path's own kernels run on a simulated SYCL runtime that reorders work items, groups and commands as the specification allows and fills device memory with garbage; rows compared with the CPU path on robust cells; races and bounds of device accesses checked. Trusts the simulated runtime to represent SYCL.",
 "C10": "Seeded search over runtime errors at every device call and over device presence, with retry.",
 "C11": "clvotess's main() runs on a simulated file system with read errors, short and interrupted reads, unopenable and corrupted files.",
 "C12": "clvotess's main() runs with standard output failing at seeded byte positions; complete output compared with the library's result.",
 "C13": "savetxt runs on a simulated file system with open, write, close failures, full disk, short and interrupted writes; the file's content is compared with the result.",
 "C14": "Seeded search with long stalls, tiny budgets and failures; step bound, deadlock, left-over workers and use of freed memory detected. The bound is 60 times the serial execution plus a constant, so only gross non-termination is seen.",
 "C18": "Seeded search over interleavings of readers and savers of one result; races between them detected, every row and file compared with the result.",
 "C19": "Seeded search over histories of refused and accepted calls, overlapping and with failing allocations and thread creations; refused calls must throw and leave every bit of the points, accepted ones return what they return alone.",
 "C16": "Seeded histories of setting, reading and copying parameters with changes of the global locale, concurrent readers and failing allocations; every value read compared with the value set. Integer and boolean values only.",
 "C20": "Seeded search over unusable parameter values among usable calls, overlapping and with failing allocations and thread creations; every access checked, rows checked for structure, other calls compared with the same call alone.",
 "C15": "Seeded histories of Python operations on the real extension module with allocation and thread creation failures; freed C++ memory is overwritten and reused, rows compared with recorded values.",
}
checks = []
for p, n in N.items():
    c = {"property": p, "quick_cmd": "python3 run.py --property %s --tier quick" % p,
         "thorough_cmd": "python3 run.py --property %s --tier thorough" % p,
         "technique": T, "level": "exploration", "level_note": n}
    checks.append(c)
if not os.path.exists(os.path.join(here, "pysim", "run.py")):
    checks = [c for c in checks if c["property"] != "C15"]
na = [{"property": "C17", "reason": "Straight-line arithmetic and in-place permutation of a private array: no concurrency, time, I/O, allocation or multi-party behaviour the outcome could depend on. Their effect on whole results is covered by C01, C03 and C09."}]
if len(checks) == 18:
    na.append({"property": "C15", "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash sim/build.sh build /repo", "checks": checks, "not_applicable": na,
     "notes": "No hooks are added to /repo: the seams are the compiler's instrumentation calls, libc and pthread symbols, and the SYCL headers. Defects found are repaired by the 'fix:' commits listed in known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
