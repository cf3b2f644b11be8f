"""Generates and executes one history of Python operations (C15).

Runs under `LD_PRELOAD=libpysim.so /usr/bin/python3`; see run.py.  A history is
a JSON object {"seed", "ops"}; executing it is a function of that object alone.
"""
import ctypes, gc, itertools, json, os, random, select, signal, struct, sys, time

UNSET = -99999
NAMES = ["k", "knn_grid_resolution", "cpu_nthreads", "use_chunking", "chunksize", "use_recompute", "cc_p_maxsize", "cc_t_maxsize", "gpu_ndsize"]

def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]

def gen(seed):
    r = random.Random(seed)
    ops, res, rows, free_id, prev = [], {}, {}, 0, None
    flavour = r.choice(["views", "views", "faults", "mixed", "mixed", "churn"])
    for _ in range(r.choice([6, 12, 12, 20, 30])):
        w = {"views": [2, 2, 6, 2, 3, 2, 4, 2, 0, 1, 1, 1, 1], "faults": [6, 1, 3, 1, 1, 1, 2, 1, 1, 0, 0, 0, 1],
             "mixed": [4, 2, 5, 2, 3, 2, 4, 2, 1, 1, 1, 1, 1], "churn": [2, 4, 4, 2, 4, 2, 4, 6, 0, 1, 1, 1, 0]}[flavour]
        op = r.choices(["tess", "dnn", "row", "droprow", "dropres", "gc", "check", "churn", "bad", "iter", "range", "save", "badargs"], w)[0]
        free_id += 1
        if op == "tess":
            n = r.choice([1, 2, 3, 5, 8, 13, 20, 40])
            pts = [[f32(r.randrange(1, 1 << 20) / (1 << 20)) for _ in range(3)] for _ in range(n)]
            a = [UNSET] * 9
            a[0] = r.choice([2, 3, 8, max(1, n - 1), n + 3, 40])
            a[1] = r.choice([1, 1, 2, 3, 5])
            if r.random() < .8: a[2] = r.choice([1, 2, 3, 5, 0])
            if r.random() < .4: a[3] = 1; a[4] = r.choice([1, 2, 3, n, n + 1, 7])
            if r.random() < .3: a[5] = 1
            if r.random() < .2: a[6] = r.choice([8, 16, 100, 300]); a[7] = r.choice([24, 64, 200])
            dev = r.choice([0, 0, 1]); gpus = r.choice([0, 1])
            if dev: a[8] = r.choice([1, 4, 8])
            if prev and r.random() < .35: a = list(prev)
            prev = list(a)
            fault = None
            if flavour in ("faults", "mixed") and r.random() < .6:
                kind = r.choice(["alloc", "alloc", "alloc2", "thread", "thread2", "dev"])
                # ordinals are taken modulo the number of calls the clean execution makes
                fault = [kind, r.randrange(1 << 16), r.randrange(1 << 16)]
            ops.append(["tess", free_id, pts, a, dev, gpus, fault, r.random() < .15])
            res[free_id] = n
        elif op == "dnn":
            n = r.choice([1, 2, 4, 9])
            offs, lst = [0], []
            for _ in range(n):
                for _ in range(r.choice([0, 1, 3, 6])): lst.append(r.randrange(1000))
                offs.append(len(lst))
            ops.append(["dnn", free_id, lst, offs]); res[free_id] = n
        elif op == "row" and res:
            k = r.choice(list(res)); ops.append(["row", free_id, k, r.randrange(res[k])]); rows[free_id] = k
        elif op == "droprow" and rows:
            k = r.choice(list(rows)); ops.append(["droprow", k]); del rows[k]
        elif op == "dropres" and res:
            k = r.choice(list(res)); ops.append(["dropres", k]); del res[k]
        elif op == "gc":
            ops.append(["gc"])
        elif op == "check" and rows:
            ops.append(["check", r.choice(list(rows))])
        elif op == "churn":
            ops.append(["churn", r.choice([1, 3, 10]), r.choice([1, 4, 20, 100])])
        elif op == "bad":
            n = r.choice([1, 3, 6]); pts = [[.5 / (i + 1), .25, .75] for i in range(n)]
            pts[r.randrange(n)][r.randrange(3)] = r.choice([0.0, 1.0, 1.5, -0.25])
            ops.append(["bad", pts, [4, 2] + [UNSET] * 7])
        elif op == "iter" and res:
            ops.append(["temp", r.choice(list(res))])
        elif op == "range" and res:
            ops.append(["range", r.choice(list(rows)) if rows else 0, r.choice(list(res)), r.choice([-1, 0, 1, 7, 1000, 1 << 20, (1 << 31) - 1, -(1 << 31), -3])])
        elif op == "save" and res:
            ops.append(["save", r.choice(list(res)), r.randrange(3)])
        elif op == "badargs":
            i = r.choice([0, 1, 6, 7]); a = [4, 2] + [UNSET] * 7; a[i] = r.choice([0, -1, -5, 1]) if i > 1 else r.choice([0, -1, -5])
            ops.append(["bad", [[.5 / (j + 1), .25, .75] for j in range(r.choice([1, 3, 6]))], a])
    return {"seed": seed, "ops": ops}

class Violation(Exception):
    def __init__(self, cls, msg): self.cls, self.msg = cls, msg

class Box:
    """holds the library handles"""
    def __init__(self, d):
        self.sim = ctypes.CDLL(os.path.join(d, "libpysim.so"))
        self.base = ctypes.CDLL(os.path.join(d, "libbase.so"))
        self.sim.pysim_get.restype = ctypes.c_uint64
        for f, n in (("pysim_arm", 5), ("pysim_seed", 1)):
            getattr(self.sim, f).argtypes = [ctypes.c_uint64] * n
        sys.path.insert(0, d)
        import pyvotess
        self.vt = pyvotess
        self.scratch = d

def reference(b, pts, a, dev):
    n = len(pts); cap = 300 * n + 16
    xyz = (ctypes.c_float * (3 * n))(*[c for p in pts for c in p])
    offs = (ctypes.c_int * (n + 8))(); lst = (ctypes.c_int * cap)()
    rc = b.base.base_tess(xyz, n, (ctypes.c_int * 9)(*a), dev, offs, lst, cap)
    if rc != n: return None
    return [list(lst[offs[i]:offs[i + 1]]) for i in range(n)]

def make_args(b, a):
    v = b.vt.vtargs()
    for n, x in zip(NAMES, a):
        if x != UNSET: v[n] = x
    return v

def read_row(row):
    return [row[j] for j in range(row.size())]

def read_all(d, n):
    return [read_row(d[i]) for i in range(n)]

def execute(b, h, stats):
    gc.disable()
    get = b.sim.pysim_get
    b.sim.pysim_seed(h["seed"] & ((1 << 63) - 1))
    res, rows, kept = {}, {}, {}
    dev_of = [b.vt.device.cpu, b.vt.device.gpu]
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)

    def look(rid, what):
        row, want = rows[rid]
        if row.size() != len(want): raise Violation("row-changed", "row %d %s: size %d, was %d" % (rid, what, row.size(), len(want)))
        got = read_row(row)
        if got != want: raise Violation("row-changed", "row %d %s reads %r, was %r" % (rid, what, got[:8], want[:8]))
        stats["row_reads"] += 1

    for at, op in enumerate(h["ops"]):
        kind = op[0]; stats["op_" + kind] = stats.get("op_" + kind, 0) + 1
        if kind == "tess":
            _, rid, pts, a, dev, gpus, fault, default_dev = op
            b.sim.pysim_gpus(gpus)
            if default_dev: dev = 1
            want = reference(b, pts, a, dev)
            if want is None: stats["no_reference"] += 1; continue
            if tuple(a) not in kept: kept[tuple(a)] = make_args(b, a)
            args = kept[tuple(a)]   # one parameter object for all calls with the same values
            def call():
                return b.vt.tesellate(pts, args) if default_dev else b.vt.tesellate(pts, args, dev_of[dev])
            d = None
            if fault:
                b.sim.pysim_arm(0, 0, 0, 0, 0); d = call(); b.sim.pysim_disarm()
                na, nt, nd = get(0), get(1), get(10)
                got = read_all(d, len(pts)); d = None
                if got != want: raise Violation("rows", "tessellation differs from the C++ library's")
                kd, x, y = fault; f = [0] * 5
                if kd.startswith("alloc") and na: f[0] = 1 + x % na; f[1] = (1 + y % na) if kd == "alloc2" else 0
                if kd.startswith("thread") and nt: f[2] = 1 + x % nt; f[3] = (1 + y % nt) if kd == "thread2" else 0
                if kd == "dev" and nd: f[4] = 1 + x % nd
                before = get(2) + get(3) + get(11)
                live0 = get(8)
                b.sim.pysim_arm(*f)
                exc = None
                try:
                    d = call()
                except Exception as e:
                    exc = type(e).__name__
                b.sim.pysim_disarm()
                fired = get(2) + get(3) + get(11) - before
                stats["armed_calls"] += 1
                if exc: stats["exceptions"] += 1; stats["exc_" + exc] = stats.get("exc_" + exc, 0) + 1
                if exc and not fired: raise Violation("spurious", "tesellate raised %s although nothing failed" % exc)
                if d is not None:
                    if d.size() != len(pts) or read_all(d, len(pts)) != want:
                        raise Violation("rows", "tesellate returned wrong rows after %s" % ("a failure it swallowed" if fired else "a clean call"))
                if get(9) > 0 and exc: raise Violation("left-worker", "a worker was left after the failed call")
                d = None
            try:
                d = call()
            except Exception as e:
                raise Violation("later-call", "clean call raised %s: %s" % (type(e).__name__, e))
            if d.size() != len(pts): raise Violation("rows", "%d rows for %d points" % (d.size(), len(pts)))
            got = read_all(d, len(pts))
            if got != want:
                i = [i for i in range(len(pts)) if got[i] != want[i]][0]
                raise Violation("rows", "row %d is %r, the C++ library's is %r" % (i, got[i][:8], want[i][:8]))
            res[rid] = (d, want); d = None
        elif kind == "dnn":
            _, rid, lst, offs = op
            d = b.vt.dnn(lst, offs)
            want = [lst[offs[i]:offs[i + 1]] for i in range(len(offs) - 1)]
            if d.size() != len(want) or read_all(d, len(want)) != want: raise Violation("rows", "dnn built from lists reads differently")
            res[rid] = (d, want); d = None
        elif kind == "row":
            _, wid, rid, i = op
            if rid not in res: continue
            d, want = res[rid]
            rows[wid] = (d[i], want[i]); d = None
            look(wid, "when taken")
        elif kind == "temp":
            if op[1] not in res: continue
            d, want = res[op[1]]
            if read_all(d, len(want)) != want: raise Violation("row-changed", "result %d reads differently from when it was made" % op[1])
            d = None
        elif kind == "range":
            _, wid, rid, x = op
            for v in ([("row", *rows[wid])] if wid in rows else []) + ([("result", *res[rid])] if rid in res else []) + [("empty result", b.vt.dnn(), [])]:
                what, o, want = v
                if o.size() != len(want): raise Violation("size", "%s has size %d, not %d" % (what, o.size(), len(want)))
                for i in (x, len(want), len(want) + x, -1):
                    if 0 <= i < len(want) or i < -(1 << 31) or i >= 1 << 31: continue
                    try:
                        y = o[i]
                    except IndexError:
                        continue
                    if -len(want) <= i < 0 and (y if what == "row" else read_row(y)) == want[i]: continue   # counted from the end
                    raise Violation("out-of-range", "%s of %d entries answers index %d" % (what, len(want), i))
                y = [z if what == "row" else read_row(z) for z in itertools.islice(iter(o), len(want) + 3)]
                if y != want: raise Violation("iteration", "iterating over a %s yields %r, it holds %r" % (what, y[:9], want[:9]))
            o = v = y = None
        elif kind == "save":
            if op[1] not in res: continue
            d, want = res[op[1]]
            path = os.path.join(b.scratch, "%d-%d.txt" % (os.getpid(), op[2]))
            d.savetxt(path); d = None
            with open(path) as f: text = f.read()
            got = [[int(x) for x in l.split()] for l in text.split("\n")]
            if text and not text.endswith("\n") or got[:-1] != want: raise Violation("saved", "the saved file holds %r, the result %r" % (got[:9], want[:9]))
            os.unlink(path)
        elif kind == "droprow": rows.pop(op[1], None)
        elif kind == "dropres": res.pop(op[1], None)
        elif kind == "gc": gc.collect()
        elif kind == "check":
            if op[1] in rows: look(op[1], "at operation %d" % at)
        elif kind == "churn":
            keep = [b.vt.dnn(list(range(-op[2], 0)), [0, op[2]]) for _ in range(op[1])]
            v = b.vt.vtargs(); v["k"] = 5; keep = v = None
        elif kind == "bad":
            try:
                y = b.vt.tesellate(op[1], make_args(b, op[2]), b.vt.device.cpu)
            except Exception:
                continue
            if all(0 < c < 1 for q in op[1] for c in q) and y.size() == len(op[1]): continue   # unusable parameters, put right
            raise Violation("no-exception", "points outside (0,1) or unusable parameters were accepted")
    res.clear(); gc.collect()
    for wid in rows: look(wid, "at the end, after every result was released")
    stats["reused"] = get(6); stats["fired_alloc"] = get(2); stats["fired_thread"] = get(3); stats["fired_dev"] = get(11); stats["tasks"] = get(7)

ZERO = ["row_reads", "no_reference", "armed_calls", "exceptions"]

def child(b, h, limit=60):
    """One history in a forked child: {"stats"} or {"class", "msg"}."""
    rp, wp = os.pipe()
    er, ew = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rp); os.close(er); os.dup2(ew, 2); signal.alarm(limit)
        stats = {k: 0 for k in ZERO}
        try:
            execute(b, h, stats); out = {"stats": stats}
        except Violation as v:
            out = {"class": v.cls, "msg": v.msg, "stats": stats}
        except BaseException as e:
            out = {"class": "interpreter", "msg": "%s: %s" % (type(e).__name__, e), "stats": stats}
        try:
            os.write(wp, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(wp); os.close(ew)
    data = b""
    while True:
        c = os.read(rp, 65536)
        if not c: break
        data += c
    os.close(rp)
    _, st = os.waitpid(pid, 0)
    err = b""
    if select.select([er], [], [], 0)[0]: err = os.read(er, 400)
    os.close(er)
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) or not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM: return {"class": "hang", "msg": "history did not end within %d s" % limit}
        if not os.WIFSIGNALED(st) and os.WEXITSTATUS(st) == 77: return {"unsupported": err.decode(errors="replace")}
        return {"class": "crash", "msg": "the interpreter ended with %s %s" % ("signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "status %d" % os.WEXITSTATUS(st), err.decode(errors="replace").strip()[:200])}
    return json.loads(data)

def minimise(b, h, cls, limit=40):
    t = time.time(); ops = h["ops"]
    step = max(1, len(ops) // 2)
    while step and time.time() - t < limit:
        i = 0; changed = False
        while i < len(ops) and time.time() - t < limit:
            cand = {"seed": h["seed"], "ops": ops[:i] + ops[i + step:]}
            if child(b, cand).get("class") == cls: ops = cand["ops"]; changed = True
            else: i += step
        if not changed: step //= 2
    # fewer points, no second fault
    for i, op in enumerate(ops):
        if op[0] != "tess": continue
        while len(op[2]) > 1 and time.time() - t < limit:
            c = json.loads(json.dumps(ops)); c[i][2] = c[i][2][:max(1, len(c[i][2]) // 2)]
            bad = [o for o in c if o[0] == "row" and o[2] == op[1] and o[3] >= len(c[i][2])]
            if bad or child(b, {"seed": h["seed"], "ops": c}).get("class") != cls: break
            ops = c; op = ops[i]
    return {"seed": h["seed"], "ops": ops}

def main():
    cfg = json.loads(sys.argv[1]); b = Box(cfg["dir"])
    if cfg.get("replay"):
        h = json.load(open(cfg["replay"])); r = child(b, h["history"])
        print(json.dumps(r)); sys.exit(1 if "class" in r else 0)
    t0 = time.time(); agg = {}; n = 0; nont = set(); viol = None; errors = []; samples = []; known = [0] * len(cfg["known"]); i = cfg["start"]
    while time.time() - t0 < cfg["time"] and not os.path.exists(cfg["stop"]):
        seed = (cfg["seed"] * 1000003 + i) & 0x7fffffffffff; i += cfg["stride"]
        h = gen(seed); r = child(b, h); n += 1
        if "unsupported" in r:
            agg["discarded"] = agg.get("discarded", 0) + 1
            if agg["discarded"] > 20 and agg["discarded"] * 2 > n: errors.append(r["unsupported"]); break
            continue
        for k, v in r.get("stats", {}).items(): agg[k] = agg.get(k, 0) + v
        if "class" in r:
            hit = False
            for j, (c, m) in enumerate(cfg["known"]):
                if c == r["class"] and m in r["msg"]: known[j] += 1; hit = True
            if hit: continue
            r2 = child(b, h)
            if (r2.get("class"), r2.get("msg")) != (r["class"], r["msg"]):
                if r["class"] == "hang": continue
                errors.append("seed %d is not repeatable: %s then %s" % (seed, r, r2)); continue
            m = minimise(b, h, r["class"]); r3 = child(b, m)
            if r3.get("class") != r["class"]: m, r3 = h, r
            path = os.path.join(cfg["replays"], "C15-%d.json" % seed)
            json.dump({"property": "C15", "class": r3["class"], "msg": r3["msg"], "plan_seed": seed, "history": m}, open(path, "w"), indent=1)
            viol = {"class": r3["class"], "msg": r3["msg"], "replay": path, "desc": "history of %d operations (%d before minimisation)" % (len(m["ops"]), len(h["ops"]))}
            open(cfg["stop"], "w").close(); break
        s = r["stats"]
        if s.get("row_reads") or s.get("exceptions"): nont.add(hash(json.dumps(h["ops"])))
        if len(samples) < 2 and s.get("row_reads"): samples.append({"plan_seed": seed, "ops": [json.dumps(o)[:100] for o in h["ops"]][:12]})
    json.dump({"n": n, "agg": agg, "nont": sorted(nont), "violation": viol, "errors": errors, "samples": samples, "known_hits": known, "wall": time.time() - t0}, open(cfg["out"], "w"))

main()
