"""Check of the random basis sets: C21."""
import json
import random

from two_checks import judge, parallel


def check(ctx):
    big = ctx.thorough
    cfg = "SPECIFICATION Spec\nINVARIANTS InvHerm InvSym InvFree\nCHECK_DEADLOCK FALSE\n"
    ctx.model("RandomMC", cfg, "symmetrised matrices and two-body elements")
    rng = random.Random(ctx.seed * 7919 + 21)
    ts = []
    for l in (1, 2, 3):
        for dim in (1, 2, 3):
            for k in range(6 if big else 2):
                ts.append({"l": l, "dim": dim, "count": 3 + k % 2, "seed": rng.choice([None, 1, 17, rng.randrange(2 ** 31)]), "deg": True})
    for l in (4, 5, 6, 7, 8, 10) + ((9, 12) if big else ()):
        for dim in (1, 2, 3, 4) if l < 8 or big else (2,):
            ts.append({"l": l, "dim": dim, "count": 2, "seed": rng.choice([None, 1, rng.randrange(2 ** 31)]), "deg": False})
    traces = [{"id": "C21_%d" % k, "tasks": ts[k::16]} for k in range(16)]
    rec, err = parallel(ctx, "randdrive.py", traces, jobs=3)
    if err:
        ctx.violation("recording failed: " + err)
        return
    ctx.cov["basis_sets"] = sum(len(e["sets"]) for t in rec for e in t["ev"])
    ctx.cov["sizes"] = sorted({(e["l"], e["dim"]) for t in rec for e in t["ev"]})
    ctx.cov["samples"] = [{"l": e["l"], "dim": e["dim"], "h": e["sets"][0]["h"] if e["sets"] else e["err"]} for e in rec[0]["ev"][:2]]
    judge(ctx, "RandomTrace", rec, timeout=2500 if big else 500)
