"""Check of the molecular systems: C22."""
import random

from two_checks import judge, parallel


def geo(rng, syms, dmin, dmax):
    """Atoms at random places with neighbour distances in [dmin, dmax] bohr, centre anywhere."""
    c = [rng.uniform(-2, 2) for _ in range(3)]
    pts = []
    while len(pts) < len(syms):
        p = [rng.uniform(-dmax, dmax) for _ in range(3)]
        ds = [sum((a - b) ** 2 for a, b in zip(p, q)) ** 0.5 for q in pts]
        if not ds or (min(ds) >= dmin and min(ds) <= dmax):
            pts.append(p)
    return [[s] + [round(a + b, 6) for a, b in zip(p, c)] for s, p in zip(syms, pts)]


ALL = ["ao", "aomo", "mo", "hf", "gosao", "goshf"]
WATER = [["o", 0.0, 0.0, 0.2], ["h", 1.43, 0.0, 1.3], ["h", -1.43, 0.1, 1.3]]


def tasks(rng, big):
    ts = []

    def add(atoms, basis, charge=0, what=ALL, **kw):
        k = len(ts)
        ts.append(dict({"atoms": atoms, "basis": basis, "charge": charge, "what": what, "anti": bool(k % 2), "later": bool((k // 2) % 2), "bare": bool(k % 4 == 1 or k % 3 == 0),
                        "give_np": bool(k % 3 == 1), "say": bool(k % 5 == 2), "give_charge": bool(k % 2)}, **kw))
    n = 6 if big else 1
    for _ in range(2 * n):
        add(geo(rng, ["h", "h"], 1.1, 1.9), "sto-3g")
        add(geo(rng, ["he", "h"], 1.3, 2.0), "sto-3g", 1)
        add(geo(rng, ["h", "h"], 1.1, 1.9), "6-31g")
        add(geo(rng, ["he", "h"], 1.3, 2.0), "6-31g", 1)
    for _ in range(n):
        add(geo(rng, ["h", "h", "h"], 1.5, 2.0), "sto-3g", 1)
        add(geo(rng, ["h", "h", "he"], 1.5, 2.2), "sto-3g")
        add(geo(rng, ["li", "h"], 2.8, 3.3), "sto-3g", 0, ["ao", "aomo", "hf"])
        add(geo(rng, ["h", "h", "h", "h"], 1.6, 2.4), "sto-3g")
        add(geo(rng, ["h", "h", "h"], 1.5, 2.0), "sto-3g", -1, ["ao", "hf", "gosao"])
    add(WATER, "sto-3g", 0, ["ao", "mo", "hf", "goshf"] if big else ["mo", "hf"])
    add([["be", 0.0, 0.0, 0.0]], "sto-3g", 0, ["ao", "hf", "goshf"], later=True)
    add([["be", 0.5, -1.0, 2.0]], "6-31g", 0, ["ao", "hf0"])
    add([["f", 1.0, 0.0, -0.5]], "sto-3g", -1, ["ao", "hf"])
    add([["he", 0.3, 0.2, 0.1]], "6-31g", 0, ALL)
    add([["li", 0.0, 0.0, 1.0]], "6-31g", 1, ["ao", "hf0"])
    add([["he", 0.0, 0.0, 0.0]], "cc-pvtz", 0, ["hf0"], cart=True)
    add([["he", 0.0, 0.0, 0.0]], "cc-pvtz", 0, ["hf0"])
    add([["be", 0.0, 0.0, 0.0]], "cc-pvdz", 0, ["hf0"], cart=True)
    add([["be", 0.0, 0.0, 0.0]], "6-31g*", 0, ["hf0"], cart=True)
    add([["li", 0.1, 0.0, 0.4]], "6-31g*", 1, ["hf0"], cart=True)
    if big:
        add([["n", 0.0, 0.0, 0.0], ["n", 0.0, 0.0, 2.07]], "sto-3g", 0, ["hf0"])
        add(geo(rng, ["h", "h"], 1.2, 1.6), "cc-pvdz", 0, ["mo", "hf0"])
        add(geo(rng, ["n", "h", "h", "h"], 1.8, 2.6), "sto-3g", 0, ["ao", "hf"])
        add(geo(rng, ["c", "o"], 2.0, 2.3), "sto-3g", 0, ["hf"])
    return ts


def check(ctx):
    big = ctx.thorough
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Big = %s\nINVARIANTS InvChange InvSym8 InvEnergy InvFock\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if big else "FALSE")
    ctx.model("MoleculeMC", cfg, "integral transformations, Fock matrix and reference energy", timeout=2000)
    rng = random.Random(ctx.seed * 7919 + 22)
    ts = tasks(rng, big)
    traces = [{"id": "C22_%d" % k, "tasks": [t]} for k, t in enumerate(ts)]
    rec, err = parallel(ctx, "moldrive.py", traces, jobs=4, timeout=1500 if big else 400)
    if err:
        ctx.violation("recording failed: " + err)
        return
    ctx.cov["molecules"] = sorted({e["who"] for t in rec for e in t["ev"]})
    ctx.cov["events"] = {}
    for t in rec:
        for e in t["ev"]:
            ctx.cov["events"][e["op"]] = ctx.cov["events"].get(e["op"], 0) + 1
    ctx.cov["samples"] = [{"who": e["who"], "op": e["op"], "h": e.get("h", [])[:9], "eref": e.get("eref")} for t in rec[:3] for e in t["ev"][-1:]]
    judge(ctx, "MoleculeTrace", rec, timeout=3000 if big else 700)
