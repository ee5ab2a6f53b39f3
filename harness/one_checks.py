"""Checks of the one-dimensional systems: C17, C18, C19."""
import json
import random

import qs_checks
from two_checks import judge, parallel

INV = {"C17": "InvSturm InvHermite InvShield", "C18": "InvKin InvShield", "C19": "InvDeriv InvOdd"}


def pot(rng, kind=None, small=False):
    """A potential with parameters that keep |V| moderate for |x| <= 4 (sextic: 2.5)."""
    kind = kind or rng.choice(["ho", "dw", "smooth", "sym", "asym", "gauss", "atom"])
    q = lambda *c: list(rng.choice(c))  # noqa: E731
    par = {"ho": lambda: [q((1, 1), (1, 2), (3, 2), (2, 1), (1, 4), (-1, 1), (0, 1))],
           "dw": lambda: [q((1, 1), (1, 2), (3, 2), (-1, 2)), q((2, 1), (1, 1), (3, 1), (5, 2), (4, 1), (-2, 1), (-3, 2), (0, 1))],
           "smooth": lambda: [q((4, 1), (2, 1), (3, 1), (5, 1), (6, 1), (-4, 1), (-5, 2))],
           "sym": lambda: [q((1, 2), (1, 4), (1, 1), (0, 1), (-1, 4)), q((1, 1), (-1, 2), (2, 1), (0, 1)), q((-7, 1), (-3, 1), (2, 1), (0, 1))],
           "asym": lambda: [q((1, 1), (1, 2), (3, 4), (0, 1), (-1, 2)), q((1, 1), (-1, 1), (1, 2), (0, 1)), q((-5, 2), (-3, 1), (1, 1), (0, 1))],
           "gauss": lambda: [q((1, 1), (3, 1), (-2, 1), (10, 1), (0, 1)), q((0, 1), (1, 2), (-1, 1), (7, 2)), q((1, 1), (1, 2), (2, 1), (5, 2), (-1, 1))],
           "wall": lambda: [q((1, 1), (3, 1), (-2, 1)), q((0, 1), (1, 2), (-1, 1)), q((1, 1), (1, 2), (2, 1)), q((2, 1), (1, 1), (5, 2), (0, 1), (-1, 1))],
           "atom": lambda: [q((2, 1), (1, 1), (4, 1), (-3, 1), (0, 1)), q((1, 2), (1, 4), (2, 1), (1, 1))]}[kind]()
    return kind, par


DEFAULT = {"smooth": [[4, 1]], "sym": [[1, 2], [1, 1], [-7, 1]], "asym": [[1, 1], [1, 1], [-5, 2]], "atom": [[2, 1], [54878464, 100000000]]}


def pot_tasks(rng, n):
    ts = []
    kinds = ["ho", "dw", "smooth", "sym", "asym", "gauss", "wall", "atom"]
    for k in range(n):
        kind, par = pot(rng, kinds[k % len(kinds)])
        den = rng.choice([1, 2, 4, 5, 8])
        m = 2 if kind in ("sym",) else 4
        xs = sorted({rng.randrange(-m * den, m * den + 1) for _ in range(11)} | {0})
        x = [[a, den] for a in xs]
        if kind == "wall":          # points on, just inside and just outside the wall
            w = par[3]
            x += [[w[0], w[1]], [-w[0], w[1]], [w[0] * 100 + 1, w[1] * 100], [-w[0] * 100 - 1, w[1] * 100]]
        if kind in ("gauss", "wall"):
            x += [par[1]]
        form = ["array", "scalar", "grid", "int", "strided"][(k // len(kinds)) % 5]
        if form == "int":
            x = [[a, 1] for a in range(-m, m + 1)]
        t = {"op": "pot", "kind": kind, "par": par, "x": x, "form": form, "alias": bool(k % 3)}
        ts.append(t)
    for kind, par in DEFAULT.items():
        if kind == "atom":
            par = [[2, 1], [548785, 1000000]]
        ts.append({"op": "pot", "kind": kind, "par": par, "x": [[a, 4] for a in range(-8, 9)], "form": "array", "defaults": True})
    return ts


def dot_tasks(rng, n, big):
    ts = []
    for k in range(n):
        kind = "ho" if k % 3 == 2 else "qd"
        l = rng.choice([1, 2, 2, 3, 3]) if not big else rng.choice([2, 3, 4])
        pts = rng.choice([4, 5, 6, 7, 9, 10, 12, 13, 17]) if k % 4 else rng.choice([21, 25, 33])
        if pts > 17:
            l = min(l, 2)
        pk, par = pot(rng)
        # spacing at least 1/4, and |V| moderate on the grid
        R = {"sym": 2.5, "smooth": 4, "asym": 3}.get(pk, 5)
        Rq = [rng.choice([4, 6, 8, 10, 12, 16, 20]), 4]
        while Rq[0] / 4 > R:
            Rq[0] -= 2
        if 2 * Rq[0] / 4 / (pts - 1) < 0.24:
            pts = int(2 * Rq[0] / 4 / 0.25) + 1
        pts = max(pts, l + 2)
        if kind == "ho":
            pts = max(pts, 3)
        ts.append({"op": "dot", "kind": kind, "l": l, "n": pts, "R": Rq, "a": rng.choice([[1, 4], [1, 2], [1, 1]]), "alpha": rng.choice([[1, 1], [2, 1], [1, 2], [0, 1]]),
                   "beta": rng.choice([[0, 1], [1, 2], [-1, 4], [1, 1]]) if kind == "qd" else [0, 1], "pot": pk, "par": par, "omega": rng.choice([[1, 1], [1, 2], [1, 4], [2, 1]]),
                   "tol": 800, "intR": bool(k % 2)})
    # more functions and finer grids, a sample of the two-body elements
    for k in range(n // 5):
        kind = ["qd", "ho", "qd"][k % 3]
        pts = [33, 61, 41, 81, 40, 101, 64][k % 7]
        l = rng.choice([5, 6, 8, 9, 12]) if pts < 70 else 5
        pk, par = pot(rng)
        R = {"sym": [9, 4], "smooth": [4, 1], "asym": [3, 1]}.get(pk, [rng.choice([3, 4, 5]), 1])
        quads = [[rng.randrange(l) for _ in range(4)] for _ in range(14 if pts < 70 else 5)] + [[l - 1] * 4, [l - 1, 0, l - 2, 1]]
        ts.append({"op": "dot", "kind": kind, "l": l, "n": pts, "R": R, "a": rng.choice([[1, 4], [1, 2], [1, 1]]), "alpha": rng.choice([[1, 1], [2, 1], [1, 2]]),
                   "beta": rng.choice([[0, 1], [1, 2], [-1, 4]]) if kind == "qd" else [0, 1], "pot": pk, "par": par, "omega": rng.choice([[1, 1], [1, 2], [1, 4], [2, 1]]),
                   "tol": 1500, "win": 20000, "quads": quads})
    d = {"op": "dot", "l": 2, "n": 13, "R": [4, 1], "a": [1, 4], "alpha": [1, 1], "beta": [0, 1], "pot": "ho", "par": [[1, 4]], "omega": [1, 4], "tol": 800, "defaults": True}
    return ts + [dict(d, kind="qd"), dict(d, kind="ho")]


def dvr_tasks(rng, n):
    ts = []
    for k in range(n):
        pk, par = pot(rng)
        l = rng.choice([2, 3, 4, 5]) if k % 3 else rng.choice([6, 7])
        R = [rng.choice([4, 6, 8, 10]), 4]
        reprs = [["2d", "4d"][k % 2]] + [rng.choice(["2d", "4d"]) for _ in range(3)]
        ts.append({"op": "dvr", "l": l, "R": R, "a": rng.choice([[1, 4], [1, 2], [1, 1]]), "alpha": rng.choice([[1, 1], [2, 1], [1, 2]]),
                   "beta": rng.choice([[0, 1], [1, 2], [-1, 4]]), "pot": pk, "par": par, "reprs": reprs, "omit": bool(k % 4 < 2)})
    for k in range(n // 6):
        pk, par = pot(rng)
        l = rng.choice([9, 11, 12]) if k % 3 == 0 else rng.choice([15, 20, 25, 30])
        ts.append({"op": "dvr", "l": l, "R": [rng.choice([8, 10]), 4], "a": rng.choice([[1, 4], [1, 2], [1, 1]]), "alpha": rng.choice([[1, 1], [2, 1], [1, 2]]),
                   "beta": rng.choice([[0, 1], [1, 2], [-1, 4]]), "pot": pk, "par": par, "reprs": ["2d", "4d", "2d"] if k % 3 == 0 else ["2d"], "omit": bool(k % 2)})
    ts.append({"op": "dvr", "l": 5, "R": [4, 1], "a": [1, 4], "alpha": [1, 1], "beta": [0, 1], "pot": "ho", "par": [[1, 4]], "reprs": ["2d", "4d"], "defaults": True, "omit": True})
    return ts


# histories in which a compactly or fully stored interaction is switched, transformed, doubled and anti-symmetrised
DVR = [
    (["Double", "Anti", "Change", "NewSpas", "NewGos", "MkGos", "SetRepr", "CopyB", "CopyS", "SysChange"], [["SetRepr", "NewSpas", "NewGos", "CopyB"]], 7, 30, 300, {"kind": "dvr"}),
    (["SetRepr", "MkGos", "Anti", "NewGos", "Double"], [["SetRepr"], ["Double", "NewGos", "NewSpas"]], 6, 30, 300, {"kind": "dvr"}),
    (["SetRepr", "Change", "SysChange", "Anti"], [["NewSpas", "Change", "Double"]], 5, 24, 240, {"kind": "dvr"}),
]


def check(ctx):
    big = ctx.thorough
    cfg = "SPECIFICATION Spec\nCONSTANTS\n NX = %d\n NG = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
        16 if ctx.prop == "C19" else 4, 22 if ctx.prop != "C19" else 3, INV[ctx.prop])
    ctx.model("OneDimMC", cfg, "one-dimensional formulas", timeout=2000)
    rng = random.Random(ctx.seed * 7919 + sum(map(ord, ctx.prop)))
    if ctx.prop == "C17":
        ts = dot_tasks(rng, 300 if big else 36, big)
    elif ctx.prop == "C18":
        ts = dvr_tasks(rng, 200 if big else 30)
    else:
        ts = pot_tasks(rng, 1600 if big else 160)
    traces = [{"id": "%s_%d" % (ctx.prop, k), "tasks": ts[k:k + 3]} for k in range(0, len(ts), 3)]
    rec, err = parallel(ctx, "onedrive.py", traces, jobs=4, timeout=1500 if big else 400)
    if err:
        ctx.violation("recording failed: " + err)
        return
    ctx.cov["requests"] = {}
    for t in rec:
        for e in t["ev"]:
            k = e["op"] + ":" + str(e.get("pot") or e.get("kind"))
            ctx.cov["requests"][k] = ctx.cov["requests"].get(k, 0) + 1
    ctx.cov["samples"] = [{k: v for k, v in t["ev"][0].items() if len(json.dumps(v)) < 300} for t in rec[:3]]
    judge(ctx, "OneDimTrace", rec, timeout=3000 if big else 700)
    if ctx.prop == "C18":
        for k, (ops, prefix, length, nq, nt, prof) in enumerate(DVR):
            n = nt if big else nq
            for c in range(0, n, 60):
                qs_checks.batch(ctx, ops, prof, min(60, n - c), length, "C18%d_%d_" % (k, c), prefix=prefix, seed=ctx.seed * 1000 + 700 + k * 100 + c // 60,
                                prop={"C01", "C02", "C03", "C04", "C05", "C18"})
