"""Records groups of random basis sets for spec/RandomTrace.tla.

usage: randdrive.py JOB.json OUT.json
"""
import json
import sys
import warnings

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import quantum_systems as qs  # noqa: E402


def fix(x):
    x = float(x)
    return int(round(x * 1e8)) if abs(x) < 20 else 2000000011


def arr(a):
    a = np.asarray(a)
    return {"sh": list(a.shape), "re": [fix(x) for x in np.real(a).ravel()], "im": [fix(x) for x in np.imag(a).ravel()]}


def record(t):
    l, dim = t["l"], t["dim"]
    e = {"op": "rand", "l": l, "dim": dim, "err": "", "sets": [], "deg": t["deg"]}
    try:
        if t["seed"] is not None:
            np.random.seed(t["seed"])
        for k in range(t["count"]):
            b = qs.RandomBasisSet(l, dim) if k % 2 else qs.RandomBasisSet(l, dim, np=np)
            e["sets"].append({"h": arr(b.h), "s": arr(b.s), "u": arr(b.u), "d": arr(b.dipole_moment), "l": int(b.l), "dim": int(b.dim),
                              "cx": all(np.iscomplexobj(x) for x in (b.h, b.s, b.u, b.dipole_moment)),
                              "spin": bool(b.includes_spin), "anti": bool(b.anti_symmetrized_u), "enuc": fix(np.real(b.nuclear_repulsion_energy))})
    except Exception as x:
        e["err"] = "%s: %s" % (type(x).__name__, str(x)[:100])
    return e


job = json.load(open(sys.argv[1]))
json.dump([{"id": t["id"], "ev": [record(k) for k in t["tasks"]]} for t in job["traces"]], open(sys.argv[2], "w"))
