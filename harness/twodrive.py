"""Records observations of the two-dimensional systems in the units of spec/TwoDim.tla.

usage: twodrive.py JOB.json OUT.json      JOB: {"traces": [{"id":.., "tasks": [...]}]}
"""
import json
import math
import sys
import warnings
from fractions import Fraction
from functools import lru_cache

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

BAD = 2000000011
PRIMES = (46337, 46327)


def orb(p):
    N = 1
    while N * (N + 1) // 2 <= p:
        N += 1
    m = 2 * (p - N * (N - 1) // 2) - (N - 1)
    return (N - 1 - abs(m)) // 2, m


def quanta(o):
    return o[0] + max(o[1], 0), o[0] + max(-o[1], 0)


def rint(x, tol=1e-4):
    """integer nearest to x, BAD if x is not (nearly) an integer"""
    if not np.isfinite(x) or abs(x) > 1e9:
        return BAD
    r = round(float(x))
    return int(r) if abs(x - r) <= tol * max(1, abs(r) * 1e-5) else BAD


def fix(x):
    if not np.isfinite(x) or abs(x) > 2000:
        return BAD
    return int(round(float(x) * 1e6))


def plain_int(x):
    try:
        return int(x) if int(x) == x else BAD
    except Exception:
        return BAD


@lru_cache(None)
def cm_poly(k, l):
    """coefficients of (x+1)^k (x-1)^l"""
    p = [1]
    for sg in [1] * k + [-1] * l:
        p = [(p[i - 1] if i else 0) + (sg * p[i] if i < len(p) else 0) for i in range(len(p) + 1)]
    return p


@lru_cache(None)
def dfact(s):
    return 1 if s <= 0 else (2 * s - 1) * dfact(s - 1)


@lru_cache(None)
def rel(rp, rm, sp, sm):
    n, n2, k = min(rp, rm), min(sp, sm), abs(rp - rm)
    lag = lambda n, k, j: (-1) ** j * math.comb(n + k, n - j) * (math.factorial(n) // math.factorial(j))  # noqa: E731
    return (-1) ** (n + n2) * sum(lag(n, k, j) * lag(n2, k, i) * Fraction(dfact(k + i + j), 2 ** (k + i + j))
                                  for j in range(n + 1) for i in range(n2 + 1))


@lru_cache(None)
def candidate(a, b, c, d):
    """The integer w expected for an element and the float it stands for.  Only a way to round an observed
    number: the integer reported is judged by the specification (CoulOK)."""
    A, B, C, D = map(quanta, (a, b, c, d))
    T = (sum(A) + sum(B) + sum(C) + sum(D)) // 2
    J = 0
    if a[1] + b[1] == c[1] + d[1]:
        s = Fraction(0)
        for Np in range(A[0] + B[0] + 1):
            for Nm in range(A[1] + B[1] + 1):
                sp, sm = C[0] + D[0] - Np, C[1] + D[1] - Nm
                if sp >= 0 and sm >= 0:
                    s += (cm_poly(A[0], B[0])[Np] * cm_poly(A[1], B[1])[Nm] * cm_poly(C[0], D[0])[Np] * cm_poly(C[1], D[1])[Nm]
                          * math.factorial(Np) * math.factorial(Nm) * rel(A[0] + B[0] - Np, A[1] + B[1] - Nm, sp, sm))
        J = s * 2 ** T * (-1) ** (a[0] + b[0] + c[0] + d[0])
        assert J.denominator == 1
        J = int(J)
    f = 1
    for q in (A, B, C, D):
        f *= math.factorial(q[0]) * math.factorial(q[1])
    return J, float(Fraction(J, 4 ** T)) / math.sqrt(f) * math.sqrt(math.pi / 2)


def coul(v, os_):
    """The integer of a Coulomb element at mass*omega = 1, modulo the two primes; [-1, -1] if there is none.
    The series summed by the code loses digits with growing quantum numbers, hence the tolerance."""
    if not np.isfinite(v):
        return [-1, -1]
    J, x = candidate(*(tuple(o) for o in os_))
    top = max(sum(quanta(o)) for o in os_)
    if abs(float(v) - x) > (1e-7 if top <= 5 else 1e-6 if top <= 7 else 2e-5):
        return [-1, -1]
    return [J % PRIMES[0], J % PRIMES[1]]


def helper():
    import quantum_systems.quantum_dots.two_dim.two_dim_helper as h
    return h


def t_idx(t):
    h = helper()
    ps = t["p"]
    nm = [[plain_int(x) for x in h.get_indices_nm(p)] for p in ps]
    return {"op": "idx", "p": ps, "nm": nm, "back": [plain_int(h.get_index_p(n, m)) for n, m in nm]}


def t_inv(t):
    h = helper()
    p = [plain_int(h.get_index_p(n, m)) for n, m in t["nm"]]
    return {"op": "inv", "nm": t["nm"], "p": p, "back": [[plain_int(x) for x in h.get_indices_nm(q)] for q in p]}


def t_he(t):
    a = np.asarray(helper().get_one_body_elements(t["l"]))
    return {"op": "he", "d": [rint(x) for x in np.diag(a)],
            "diag": bool(a.shape == (t["l"], t["l"]) and np.all(a == np.diag(np.diag(a))))}


def t_uel(t):
    u = np.asarray(helper().get_coulomb_elements(t["l"]))
    os_ = [[orb(p) for p in q] for q in t["q"]]
    return {"op": "uel", "o": os_, "w": [coul(u[tuple(q)], o) if np.isrealobj(u) else [-1, -1] for q, o in zip(t["q"], os_)]}


def rank_b(l, W, w):
    c = [(W * (2 * n + abs(m) + 1) - w * m, m, n) for n in range(l) for m in range(-l, l + 1)]
    return [(n, m) for _, m, n in sorted(c)[:l]]


def t_sys(t):
    import quantum_systems as qs
    kind, l, parts = t["kind"], t["l"], t["parts"]
    F = lambda k, d: Fraction(*t[k]) if k in t else Fraction(d)  # noqa: E731
    num = (lambda q: int(q) if q.denominator == 1 and not t.get("float") else float(q))
    omega, mass, bar = F("omega", 1), F("mass", 1), F("barrier", 0)
    N = t["N"]
    e = {"op": "sys", "kind": kind, "l": l, "h": [], "hi": [], "s": [], "u": [], "ui": [], "xr": [], "xi": [], "yr": [], "yi": [], "ng": 0,
         "rho": [0, 1], "fr": [], "fi": [], "axis": t.get("axis", 0), "W": 0, "w": 0, "nm": [], "lev": [], "deg": [],
         "args": {k: v for k, v in t.items() if k != "parts"}}
    for k, v in (("omega", omega), ("mass", mass), ("barrier", bar)):
        e[k] = [v.numerator, v.denominator]
    if kind == "b":
        c = F("c", 1)
        W, w, w0 = t["W"], t["w"], t["w0"]
        weff = W * c
        e.update(W=W, w=w)
        obs = rank_b(l, W, w)
    else:
        weff = omega
        obs = [orb(p) for p in range(l)]
    mw = mass * weff
    sq = Fraction(math.isqrt(mw.numerator), math.isqrt(mw.denominator))
    assert sq * sq == mw, t
    R = F("rho", 1) / sq          # outermost grid point at sqrt(mass omega) r = rho
    e["sq"] = [sq.numerator, sq.denominator]
    kw = {}
    if not t.get("defaults"):
        kw["mass"] = num(mass)
        if kind != "b":
            kw["omega"] = num(omega)
    if kind == "b":
        kw.update(omega=num(w0 * c), omega_c=num(2 * w * c))
        cls = qs.TwoDimHarmonicOscB
    elif kind == "dw":
        kw.update(barrier_strength=num(bar))
        if t.get("axis") is not None:
            kw["axis"] = t["axis"]
        cls = qs.TwoDimensionalDoubleWell
    else:
        cls = qs.TwoDimensionalHarmonicOscillator
    if t.get("only"):           # functions of many orbitals, without the expensive two-body elements
        e["deep"] = True

        class Part(cls):
            def setup_basis(self):
                self.setup_spf()

        try:
            f = np.asarray(Part(l, num(R), N, **kw).spf)
        except AttributeError:  # there is no separate method for the functions
            e["l"] = 0
            return e
        except Exception as x:
            e["err"] = "%s: %s" % (type(x).__name__, str(x)[:80])
            return e
        v, st = np.asarray(f, dtype=complex).ravel() / float(sq), sq * R / (N - 1)
        e.update(ng=N, rho=[st.numerator, st.denominator], fr=[fix(x) for x in v.real], fi=[fix(x) for x in v.imag])
        return e
    try:
        b = cls(l, num(R), N, **kw)
        ug = [np.asarray(x) for x in (b.h, b.s, b.u, b.dipole_moment, b.spf)]
    except Exception as x:
        e["err"] = "%s: %s" % (type(x).__name__, str(x)[:80])
        return e
    h, s, u, d, f = ug
    a, fsq = float(sq), float(mw)
    C = lambda x: np.asarray(x, dtype=complex).ravel()  # noqa: E731
    if h.shape != (l, l):
        e["err"] = "h has shape %r" % (h.shape,)
        return e
    if "h" in parts:
        if kind == "dw":
            e["h"] = [fix(x) for x in C(h).real]
            e["hi"] = [fix(x) for x in C(h).imag]
        else:
            unit = float(c) if kind == "b" else float(omega)
            e["h"] = [rint(x / unit, 1e-6) for x in C(h).real]
            e["hi"] = [rint(x / unit, 1e-6) for x in C(h).imag]
        e["s"] = [rint(x, 1e-9) if abs(x.imag) < 1e-9 else BAD for x in C(s)]
    if "u" in parts:
        if u.shape != (l,) * 4:
            e["err"] = "u has shape %r" % (u.shape,)
            return e
        it = list(np.ndindex(*u.shape))
        if t.get("uq"):
            it = [tuple(q) for q in t["uq"]]
            e["uq"] = t["uq"]
        e["u"] = [coul(u[i].real / a, [obs[j] for j in i]) for i in it]
        e["ui"] = [0 if np.all(np.abs(np.imag(u)) < 1e-9) else 1]
    if "d" in parts:
        if d.shape != (2, l, l):
            e["err"] = "dipole has shape %r" % (d.shape,)
            return e
        sgsq = lambda x: rint(4 * fsq * x * abs(x), 1e-6)  # noqa: E731
        for k, v in (("x", d[0]), ("y", d[1])):
            v = C(v)
            e[k + "r"] = [sgsq(x) for x in v.real]
            e[k + "i"] = [sgsq(x) for x in v.imag]
    if "f" in parts:
        v = C(f) / a
        st = sq * R / (N - 1)
        e.update(ng=N, rho=[st.numerator, st.denominator], fr=[fix(x) for x in v.real], fi=[fix(x) for x in v.imag])
    if kind == "b" and "l" in parts:
        try:
            e["nm"] = [[plain_int(x) for x in b.get_indices_nm(p)] for p in range(l)]
            df = b.df
            e["lev"] = [plain_int(df.loc[p, "level"]) for p in range(l)]
            e["deg"] = [plain_int(df.loc[p, "degeneracy"]) for p in range(l)]
        except Exception as x:
            e["err"] = "levels: %s: %s" % (type(x).__name__, str(x)[:80])
    return e


T = {"idx": t_idx, "inv": t_inv, "he": t_he, "uel": t_uel, "sys": t_sys}


def main():
    job = json.load(open(sys.argv[1]))
    out = [{"id": tr["id"], "ev": [T[t["op"]](t) for t in tr["tasks"]]} for tr in job["traces"]]
    json.dump(out, open(sys.argv[2], "w"))


main()
