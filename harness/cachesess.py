"""Sessions of one process that asks for Coulomb elements of many sizes, with caching on and off.

usage: cachesess.py JOB.json OUT.json      (compiled code, so that large sizes are possible)
"""
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, "/repo")
import numpy as np  # noqa: E402
import quantum_systems.quantum_dots.two_dim.two_dim_helper as helper  # noqa: E402
from quantum_systems import TwoDimensionalHarmonicOscillator as TDHO  # noqa: E402

REF, ROOT, COUNT = {}, [None], {"reads": 0, "writes": 0}


def audit(ev, args):
    if ROOT[0] is None or ev not in ("open", "os.rename", "os.remove", "os.link", "os.truncate"):
        return
    try:
        inside = os.path.realpath(os.fsdecode(args[0])).startswith(ROOT[0] + os.sep)
    except Exception:
        return
    if inside:
        w = ev != "open" or any(c in (args[1] or "") for c in "wax+") or bool((args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        COUNT["writes" if w else "reads"] += 1


def classify(u, l):
    u = np.asarray(u)
    if u.shape != REF[l].shape:
        return "wrong"
    return "right" if np.allclose(u, REF[l], rtol=1e-9, atol=1e-12) else "wrong"


def run(h):
    root = os.path.realpath(tempfile.mkdtemp(prefix="sess_", dir=os.getcwd()))
    ev = []
    keep, old = os.getcwd(), list(sys.path)
    try:
        os.chdir(root)
        sys.path.insert(0, root)
        for a in h["calls"]:
            l = a["l"]
            os.environ.pop("QS_CACHE_TDHO", None)
            if a["on"]:
                os.environ["QS_CACHE_TDHO"] = a.get("value", "1")
            ev.append({"op": "begin", "p": 4, "l": l, "on": a["on"]})
            COUNT.update(reads=0, writes=0)
            ROOT[0] = root
            e = {"op": "end", "p": 4, "out": "ok", "eq": "none", "why": ""}
            try:
                if a["via"] == "system":
                    u = TDHO(l, 2, 3, omega=1, mass=1).u
                elif a["via"] == "verbose":
                    u = helper.get_coulomb_elements(l, verbose=True)
                else:
                    u = helper.get_coulomb_elements(l)
                ROOT[0] = None
                e["eq"] = classify(u, l)
                try:
                    u += 1
                except ValueError:
                    pass
            except Exception as x:
                ROOT[0] = None
                e.update(out="err", why="%s: %s" % (type(x).__name__, str(x)[:120]))
            ev.append(dict(e, **COUNT))
    finally:
        sys.path[:] = old
        os.chdir(keep)
        shutil.rmtree(root, ignore_errors=True)
    return {"id": h["id"], "ev": ev}


job = json.load(open(sys.argv[1]))
os.environ.pop("QS_CACHE_TDHO", None)
for n in sorted({a["l"] for h in job["traces"] for a in h["calls"]}):
    REF[n] = np.array(helper.get_coulomb_elements(n))
sys.addaudithook(audit)
json.dump([run(h) for h in job["traces"]], open(sys.argv[2], "w"))
