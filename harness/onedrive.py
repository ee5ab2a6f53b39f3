"""Records observations of the one-dimensional potentials and systems for spec/OneDimTrace.tla.

usage: onedrive.py JOB.json OUT.json
"""
import io
import json
import contextlib
import sys
import warnings
from fractions import Fraction

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import quantum_systems as qs  # noqa: E402
import quantum_systems.quantum_dots.one_dim.one_dim_potentials as pots  # noqa: E402

BAD = 2000000011


def fix(x):
    x = float(x)
    if not np.isfinite(x) or abs(x) > 2000:
        return BAD
    return int(round(x * 1e6))


def fixs(a):
    return [fix(x) for x in np.asarray(a).ravel()]


def fl(r):
    return float(Fraction(*r))


NAMES = {"ho": "HOPotential", "dw": "DWPotential", "smooth": "DWPotentialSmooth", "sym": "SymmetricDWPotential", "asym": "AsymmetricDWPotential",
         "gauss": "GaussianPotential", "wall": "GaussianPotentialHardWall", "atom": "AtomicPotential"}


def make(kind, par, ns=pots, defaults=False):
    a = [fl(p) for p in par]
    if kind == "gauss":
        a.append(np)
    if defaults:
        a = []
    return getattr(ns, NAMES[kind])(*a)


def t_pot(t):
    e = {"op": "pot", "kind": t["kind"], "par": t["par"], "x": t["x"], "v": [], "w": [], "d": [], "err": "", "shape": True, "kept": True, "hasd": True, "form": t["form"]}
    x = np.array([fl(q) for q in t["x"]])
    try:
        v = make(t["kind"], t["par"], qs.ODQD if t["kind"] != "wall" and t.get("alias") else pots, t.get("defaults"))
        f = t["form"]
        hasd = t["kind"] != "wall"
        if t["kind"] == "wall" and f != "array":
            f = "array"
        if f == "scalar":
            val = [v(float(y)) for y in x]
            der = [v.derivative(float(y)) for y in x] if hasd else None
            e["shape"] = all(np.ndim(y) == 0 for y in val)
        elif f == "grid":
            g = np.stack([x, x[::-1]])
            g0 = g.copy()
            val = np.asarray(v(g))
            der = np.asarray(v.derivative(g))
            e["shape"] = val.shape == g.shape == der.shape
            e["kept"] = bool(np.array_equal(g, g0))
            if e["shape"]:
                e["shape"] = bool(np.array_equal(val[0], val[1][::-1]) and np.array_equal(der[0], der[1][::-1]))
                val, der = val[0], der[0]
        else:
            g = x.copy()
            if f == "int" and all(q[1] == 1 for q in t["x"]):
                g = np.array([q[0] for q in t["x"]])
            if f == "strided":
                g = np.repeat(x, 2)[::2]
            if f == "f32" :
                g = x.copy()
            g0 = g.copy()
            val = np.asarray(v(g))
            der = np.asarray(v.derivative(g)) if hasd else None
            val2 = np.asarray(v(g))
            e["shape"] = val.shape == g.shape and (der is None or der.shape == g.shape) and bool(np.array_equal(val, val2))
            e["kept"] = bool(np.array_equal(g, g0))
        if np.iscomplexobj(val):
            raise ValueError("complex values")
        val = np.asarray(val, dtype=float).ravel()
        e["w"] = [bool(y > 5e4) for y in val]
        e["v"] = [fix(y - 1e5 if y > 5e4 else y) for y in val]
        if der is not None:
            e["d"] = fixs(der)
        else:
            e["hasd"] = False
    except NotImplementedError:
        e["hasd"] = False
    except Exception as x:
        e["err"] = "%s: %s" % (type(x).__name__, str(x)[:80])
    return e


def t_dot(t):
    l, n, kind = t["l"], t["n"], t["kind"]
    e = {"op": "dot", "kind": kind, "l": l, "n": n, "R": t["R"], "a": t["a"], "alpha": t["alpha"], "beta": t["beta"], "pot": t["pot"], "par": t["par"],
         "omega": t.get("omega", [1, 1]), "err": "", "tol": t["tol"], "win": t.get("win", 5000), "real": True, "quads": []}
    for k in ("fr", "fi", "h", "hi", "s", "dr", "di", "ur", "ui"):
        e[k] = []
    try:
        kw = {} if t.get("defaults") else {"a": fl(t["a"]), "alpha": fl(t["alpha"]), "beta": fl(t["beta"])}
        R = fl(t["R"])
        R = int(R) if R == int(R) and t.get("intR") else R
        if kind == "qd":
            if not t.get("defaults"):
                kw["potential"] = make(t["pot"], t["par"])
            b = qs.ODQD(l, R, n, **kw)
        else:
            from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
            if not t.get("defaults"):
                kw["omega"] = fl(t["omega"])
            b = ODHO(l, R, n, **kw)
        f, h, s, d, u = (np.asarray(x, dtype=complex) for x in (b.spf, b.h, b.s, b.dipole_moment, b.u))
        if f.shape != (l, n) or h.shape != (l, l) or d.shape != (1, l, l) or u.shape != (l,) * 4:
            raise ValueError("shapes %s" % [x.shape for x in (f, h, d, u)])
        g = np.asarray(b.grid)
        if g.shape != (n,) or not np.allclose(g, np.linspace(-R, R, n)):
            raise ValueError("grid")
        e.update(fr=fixs(f.real), fi=fixs(f.imag), h=fixs(h.real), hi=fixs(h.imag), s=[fix(x) if abs(x.imag) < 1e-12 else BAD for x in s.ravel()],
                 dr=fixs(d.real), di=fixs(d.imag))
        quads = t.get("quads") or [list(q) for q in np.ndindex(*u.shape)]
        v = np.array([u[tuple(q)] for q in quads])
        e.update(quads=[[x + 1 for x in q] for q in quads], ur=fixs(v.real), ui=fixs(v.imag))
        e["real"] = not any(e["fi"])
    except Exception as x:
        e["err"] = "%s: %s" % (type(x).__name__, str(x)[:80])
    return e


def t_dvr(t):
    l = t["l"]
    e = {"op": "dvr", "l": l, "R": t["R"], "a": t["a"], "alpha": t["alpha"], "beta": t["beta"], "pot": t["pot"], "par": t["par"], "err": "", "real": True, "us": []}
    for k in ("h", "s", "spf", "dip"):
        e[k] = []
    try:
        kw = {} if t.get("defaults") else {"a": fl(t["a"]), "alpha": fl(t["alpha"]), "beta": fl(t["beta"]), "potential": make(t["pot"], t["par"])}
        want = t["reprs"][0]
        if not (want == "2d" and t.get("omit")):
            kw["u_repr"] = want
        b = qs.ODSincDVR(l, fl(t["R"]), **kw)
        h, s, f, d = (np.asarray(x, dtype=complex) for x in (b.h, b.s, b.spf, b.dipole_moment))
        if d.shape != (1, l, l) or f.shape != (l, l) or s.shape != (l, l):
            raise ValueError("shapes")
        e.update(h=fixs(h.real), s=fixs(s.real), spf=fixs(f.real), dip=fixs(d.real))
        im = [h, s, f, d]
        for k, want in enumerate(t["reprs"]):
            if k:
                with contextlib.redirect_stdout(io.StringIO()):
                    b.set_u_repr(want)
            u = np.asarray(b.u, dtype=complex)
            im.append(u)
            e["us"].append({"want": want, "repr": str(b.u_repr), "u": fixs(u.real)})
            if bool(b.sparse_repr) != (want == "2d"):
                e["us"][-1]["repr"] = "inconsistent"
        e["real"] = bool(all(np.all(np.abs(x.imag) < 1e-9) for x in im))
    except Exception as x:
        e["err"] = "%s: %s" % (type(x).__name__, str(x)[:80])
    return e


T = {"pot": t_pot, "dot": t_dot, "dvr": t_dvr}
job = json.load(open(sys.argv[1]))
json.dump([{"id": tr["id"], "ev": [T[t["op"]](t) for t in tr["tasks"]]} for tr in job["traces"]], open(sys.argv[2], "w"))
