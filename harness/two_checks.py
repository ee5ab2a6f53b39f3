"""Checks of the two-dimensional systems: C12, C13, C15, C16, C23."""
import json
import os
import random
from concurrent.futures import ThreadPoolExecutor

from common import CheckError, run_code

GRID = [2, 3, 4, 5, 7, 9, 13]
SQ = [([1, 1], [1, 1]), ([1, 4], [1, 1]), ([4, 1], [1, 1]), ([1, 2], [1, 2]), ([1, 2], [2, 1]), ([2, 1], [2, 1]), ([9, 4], [1, 1]),
      ([1, 1], [1, 4]), ([1, 1], [9, 4]), ([1, 2], [9, 2]), ([3, 1], [3, 4]), ([2, 1], [1, 8])]          # (omega, mass), mass*omega a square
PYTH = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (15, 8, 17), (1, 0, 1), (0, 1, 1), (3, -4, 5), (4, -3, 5)]
# nearly degenerate levels: weak fields, and strong ones
WEAK = [(99, 20, 101, 7), (99, -20, 101, 7), (9999, 200, 10001, 13), (9999, -200, 10001, 14), (999999, 2000, 1000001, 20), (999999, -2000, 1000001, 20),
        (20, 99, 101, 6), (200, 9999, 10001, 13), (399, 40, 401, 8), (39999, 400, 40001, 15)]

INV = {"C12": "InvIndex InvShell InvCount", "C13": "InvCoul InvLadder InvLadder2", "C15": "InvDip InvSumRule InvRad", "C16": "InvField InvField0",
       "C23": "InvAbs"}


def parallel(ctx, script, traces, jobs=6, timeout=400, key=None):
    """Traces recorded by several processes; None in place of what did not come back."""
    if key:         # traces of equal key in the same process
        order = sorted({key(t) for t in traces})
        chunks = [[t for t in traces if order.index(key(t)) % jobs == k] for k in range(jobs)]
    else:
        chunks = [traces[k::jobs] for k in range(jobs)]
    chunks = [c for c in chunks if c]

    def one(kc):
        k, c = kc
        jp, op = ctx.path("job%d_%d.json" % (id(traces) % 10 ** 6, k)), ctx.path("out%d_%d.json" % (id(traces) % 10 ** 6, k))
        json.dump({"traces": c}, open(jp, "w"))
        p = run_code(ctx, script, [jp, op], timeout=timeout)
        if p is None:
            return None, "the library did not return within %d s" % timeout
        if p.returncode:
            return None, p.stderr[-1500:]
        r = json.load(open(op))
        os.unlink(op)
        return r, None

    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, enumerate(chunks)))
    out = []
    for r, err in res:
        if err:
            return None, err
        out += r
    return out, None


def judge(ctx, module, traces, **kw):
    mm = ctx.validate(module, traces, **kw)
    by = {t["id"]: t for t in traces}
    for m in mm:
        if ctx.prop in m["props"]:
            ev = by[m["trace"]]["ev"][m["event"] - 1]
            ctx.violation("%s (event %d of trace %s)" % (m["what"], m["event"], m["trace"]),
                          {"what": m["what"], "event": {k: v for k, v in ev.items() if len(json.dumps(v)) < 1500}})
        else:
            if os.environ.get("VERIF_DEBUG"):
                print("  other:", m)
            ctx.cov["disagreements_of_other_properties"] = ctx.cov.get("disagreements_of_other_properties", 0) + 1
    return mm


def sys_tasks(rng, n, kind, parts, lmax, **fixed):
    ts = []
    for k in range(n):
        om, ma = SQ[k % len(SQ)] if k < len(SQ) else rng.choice(SQ)
        l = 1 + rng.randrange(lmax) if k % 3 else max(1, lmax - k % 2)
        t = {"op": "sys", "kind": kind, "l": l, "parts": parts, "omega": om, "mass": ma, "N": rng.choice(GRID),
             "rho": rng.choice([[1, 1], [2, 1], [3, 2], [3, 1], [5, 2]]), "float": bool(k % 2)}
        if kind == "dw":
            t["barrier"] = [[1, 1], [0, 1], [2, 1], [1, 2], [-1, 1], [3, 1]][k % 6]
            t["axis"] = [0, 1][(k // 2) % 2]
        if kind == "b":
            w0, w, W = PYTH[k % len(PYTH)]
            c = [[1, 1], [1, 2], [1, 4], [2, 1], [1, 8]][(k // 2) % 5]
            # mass * W * c must be a rational square
            t.update(W=W, w=w, w0=w0, c=c, mass=rng.choice([[W * c[1], c[0]], [c[1] * 4, W * c[0]], [c[1], W * c[0]], [c[1], 4 * c[0] * W]]), omega=[1, 1])
        t.update(fixed)
        ts.append(t)
    return ts


def tasks(ctx, prop, rng):
    big = ctx.thorough
    if prop == "C12":
        n = 4000 if big else 700
        ts = [{"op": "idx", "p": list(range(k, k + 100))} for k in range(0, n, 100)]
        ts += [{"op": "idx", "p": sorted({max(0, N * (N + 1) // 2 + d) for d in (-1, 0, 1, N // 2, N // 2 + 1)})} for N in rng.sample(range(40, 1000), 40) + rng.sample(range(1000, 46000), 40)]
        m = 60 if big else 24
        ts += [{"op": "inv", "nm": [[a, b] for b in range(-m, m + 1)]} for a in range(m)]
        ts += [{"op": "inv", "nm": [[rng.randrange(300), rng.randrange(-300, 300)] for _ in range(30)]} for _ in range(6)]
        ts += [{"op": "inv", "nm": [[a, m] for a in (rng.randrange(15000),) for m in (0, 1, -1, rng.randrange(15000), -rng.randrange(15000))]} for _ in range(12)]
        ts += [{"op": "he", "l": l} for l in ([1, 2, 3, 4, 5, 6, 7, 10, 11, 15, 16, 21, 28, 45, 66, 100] + ([200, 300] if big else []))]
        ts += sys_tasks(rng, 60 if big else 14, "ho", ["h"], 12)
        return ts, True
    if prop == "C13":
        ts = [{"op": "uel", "l": l, "q": [[p, q, r, s] for p in range(l) for q in range(l) for r in range(l) for s in range(l)]} for l in (1, 2, 3, 4, 6)]
        o = [_orb(p) for p in range(21)]
        for k in range(60 if big else 12):
            qq = []
            while len(qq) < 120:
                L = rng.choice([10, 15, 21])
                q = [rng.randrange(L) for _ in range(4)]
                if o[q[0]][1] + o[q[1]][1] == o[q[2]][1] + o[q[3]][1] or rng.random() < 0.01:
                    qq.append(q)
            ts.append({"op": "uel", "l": 21, "q": qq})
        # whole diagonals of the largest bases
        ts.append({"op": "uel", "l": 21, "q": [[p, q, p, q] for p in range(21) for q in range(p + 1)][::(1 if big else 3)]})
        ts.append({"op": "uel", "l": 21, "q": [[p, q, q, p] for p in range(21) for q in range(p + 1)][::(1 if big else 3)]})
        ts += sys_tasks(rng, 30 if big else 12, "ho", ["u"], 6)
        ts += sys_tasks(rng, 12 if big else 6, "dw", ["u"], 5)
        ts += sys_tasks(rng, 44 if big else 11, "b", ["u"], 5)
        # larger systems, a sample of their elements
        for k in range(24 if big else 9):
            l = [11, 12, 15, 13, 21, 17, 10, 19, 14][k % 9]
            uq = []
            while len(uq) < 60:
                q = [rng.randrange(l) for _ in range(4)]
                if o[q[0]][1] + o[q[1]][1] == o[q[2]][1] + o[q[3]][1]:
                    uq.append(q)
            om, ma = SQ[(k + 7) % len(SQ)]
            ts += sys_tasks(rng, 1, "dw" if k == 8 else "ho", ["u"], 6, l=l if k < 8 else 11, N=2, omega=om, mass=ma, uq=uq if k < 8 else [q for q in uq if max(q) < 11])
        return ts, True
    if prop == "C15":
        ts = sys_tasks(rng, 72 if big else 24, "ho", ["d", "f"], 10)
        ts += sys_tasks(rng, 66 if big else 22, "b", ["d", "f"], 6)
        ts += sys_tasks(rng, 12 if big else 4, "dw", ["d", "f"], 6)
        ts += sys_tasks(rng, 3, "ho", ["d"], 10, l=15 if not big else 28)
        ts += sys_tasks(rng, 2, "ho", ["d"], 10, l=28, N=2)
        for k, l in enumerate([91, 66, 45, 78] if big else [91, 66, 45]):
            ts += sys_tasks(rng, 1, "ho", ["f"], 6, only=True, l=l, N=[4, 7, 5, 9][k], rho=[[5, 2], [2, 1], [3, 2], [1, 1]][k], omega=SQ[k][0], mass=SQ[k][1])
        ts += sys_tasks(rng, 2, "ho", ["d", "f"], 10, defaults=True, omega=[1, 1], mass=[1, 1], l=6)
        return ts, True
    if prop == "C16":
        ts = sys_tasks(rng, 110 if big else 33, "b", ["h", "u", "d", "f", "l"], 5)
        ts += sys_tasks(rng, 66 if big else 22, "b", ["h", "l", "d"], 7, N=2)
        ts += sys_tasks(rng, 11, "b", ["h", "l"], 10, N=2, l=8 if not big else 12)
        # many states in strong fields: the lowest ones have large angular momenta
        for k, l in enumerate([13, 16, 15, 14, 20, 18] if big else [13, 16, 14]):
            w0, w, W = [(5, 12, 13), (5, -12, 13), (20, 99, 101), (3, 4, 5), (5, 12, 13), (20, -99, 101)][k]
            ts.insert(0, sys_tasks(rng, 1, "b", ["h", "l", "d"], 7, N=2, l=l, w0=w0, w=w, W=W, c=[1, 4], mass=[4, W], omega=[1, 1])[0])
        for k, (w0, w, W, e) in enumerate(WEAK):
            for l in ([3, 4, 5, 6, 7, 8, 10] if big else [5 + k % 2, 8]):
                ts += sys_tasks(rng, 1, "b", ["h", "l", "d"], 7, N=2, l=l, w0=w0, w=w, W=W, c=[1, 2 ** e], mass=[2 ** e, W], omega=[1, 1])
        return ts, True
    if prop == "C23":
        ts = sys_tasks(rng, 90 if big else 24, "dw", ["h"], 6)
        ts += sys_tasks(rng, 12 if big else 4, "dw", ["h"], 6, l=10, N=2)
        ts += sys_tasks(rng, 36 if big else 8, "dw", ["h", "u", "d", "f"], 4)
        return ts, True


def high(ctx, rng):
    """Elements of orbitals beyond those the series of the tests reaches: shells 9 and 10, and strong fields."""
    big = ctx.thorough
    l = 55 if big else 45
    o = [_orb(p) for p in range(l)]
    by = {}
    for p in range(l):
        for q in range(l):
            by.setdefault(o[p][1] + o[q][1], []).append((p, q))
    qq = []
    for k in range(1500 if big else 400):
        while True:
            p, q = rng.choice([rng.randrange(36, l), rng.randrange(l)]), rng.randrange(l)
            r, s = rng.choice(by[o[p][1] + o[q][1]])
            if max(p, q, r, s) >= 36:
                break
        qq.append([p, q, r, s])
    edge = [p for p in range(l) if o[p][0] == 0 and abs(o[p][1]) >= 7]
    qq += [[p, q, r, s] for p in edge for q in edge for r in edge for s in edge if o[p][1] + o[q][1] == o[r][1] + o[s][1]]
    ts = [{"op": "uel", "l": l, "q": qq}]
    for k in range(4 if big else 2):
        ts += sys_tasks(rng, 1, "b", ["u"], 9, W=[5, 13, 5, 17][k], w=[4, -12, -4, 15][k], w0=[3, 5, 3, 8][k], c=[1, 1], N=2, l=[10, 9, 10, 10][k],
                        mass=[[1, 5], [1, 13], [5, 1], [1, 17]][k], omega=[1, 1])
    return ts


def _orb(p):
    N = 1
    while N * (N + 1) // 2 <= p:
        N += 1
    m = 2 * (p - N * (N - 1) // 2) - (N - 1)
    return (N - 1 - abs(m)) // 2, m


def check(ctx):
    big = ctx.thorough
    L, K = {"C12": (1, 3000 if big else 800), "C13": (10 if big else 6, 10), "C15": (28 if big else 15, 30), "C16": (12 if big else 7, 12 if big else 7),
            "C23": (10 if big else 6, 10)}[ctx.prop]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n MaxQ = 5\n L = %d\n K = %d\n Deep = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
        L, K, "TRUE" if ctx.prop == "C13" else "FALSE", INV[ctx.prop])
    ctx.model("TwoDimMC", cfg, "orbitals and elements of the two-dimensional oscillator", timeout=3000, heap="10g")
    rng = random.Random(ctx.seed * 7919 + sum(map(ord, ctx.prop)))
    ts, _ = tasks(ctx, ctx.prop, rng)
    rng.shuffle(ts)
    slow = [t for t in ts if t.get("kind") == "b" and t["l"] > 12 or t.get("only")]
    ts = [t for t in ts if not any(t is x for x in slow)]
    per = 5
    traces = [{"id": "%s_l%d" % (ctx.prop, k), "tasks": [t]} for k, t in enumerate(slow)]
    traces += [{"id": "%s_%d" % (ctx.prop, k), "tasks": ts[k:k + per]} for k in range(0, len(ts), per)]
    rec, err = parallel(ctx, "twodrive.py", traces, timeout=2000 if big else 500)
    if err:
        ctx.violation("recording failed: " + err)
        return
    ctx.cov["requests"] = {}
    for t in rec:
        for e in t["ev"]:
            k = e["op"] + ":" + e.get("kind", "")
            ctx.cov["requests"][k] = ctx.cov["requests"].get(k, 0) + 1
    ctx.cov["samples"] = [{k: v for k, v in t["ev"][0].items() if len(json.dumps(v)) < 300} for t in rec[:3]]
    if ctx.prop == "C13":
        hts = [{"id": "high_%d" % k, "tasks": [t]} for k, t in enumerate(high(ctx, rng))]
        hrec, err = parallel(ctx, "twodrive.py", hts, timeout=2000 if big else 600)
        if err:
            ctx.violation("recording failed: " + err)
            return
        ctx.cov["elements_beyond_shell_8"] = sum(len(e["w"] if e["op"] == "uel" else e["u"]) for t in hrec for e in t["ev"])
        judge(ctx, "TwoDimTrace", hrec, cfg="TwoDimTraceHigh.cfg", timeout=3000 if big else 800)
    judge(ctx, "TwoDimTrace", rec, timeout=3000 if big else 800)
