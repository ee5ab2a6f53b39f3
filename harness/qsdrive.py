"""Replays operation histories into the real code and records what is observed.

usage: qsdrive.py JOB.json OUT.json

JOB: {"histories": [...], "profile": {...}, "seed": n}.  Every history comes from
spec/QSGen.tla; this replayer supplies numbers (small Gaussian integers, so that the
floating point results are exact) and sizes, issues the requests, and records outcome,
return value and the observable state of every object after each of them.
"""
import json
import sys
import types
import warnings

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

BAD = 2000000011
LIM = 2 ** 29
FIELDS = ["h", "s", "u", "dip", "spf", "bra", "sx", "sy", "sz", "s2", "s2tb"]
ATTR = {"h": "h", "s": "s", "u": "u", "dip": "dipole_moment", "spf": "spf", "bra": "bra_spf", "sx": "spin_x",
        "sy": "spin_y", "sz": "spin_z", "s2": "spin_2", "s2tb": "spin_2_tb"}
SPIN = ["sx", "sy", "sz", "s2", "s2tb"]
TIMES = [0.0, 0.75, 2.0, -1.25]
# further public attributes of the concrete basis sets
AUX = ["sigma_x", "sigma_y", "sigma_z", "a", "b", "eigen_energies", "df", "potential", "radius", "theta", "R", "T", "omega", "omega_c", "mass",
       "alpha", "beta", "grid_length", "radius_length", "num_grid_points", "dx", "barrier_strength", "axis"]
XS = np.linspace(-2.0, 2.0, 5)
PARAM = ["omega", "a", "l", "Za", "weight", "b", "c"]
NOT = {"sh": [], "re": [], "im": []}


class PxArray(np.ndarray):
    pass


def make_px(name):
    """An array module other than numpy: numpy whose asarray makes its own array type."""
    m = types.ModuleType(name)
    m.__dict__.update({k: v for k, v in np.__dict__.items() if not k.startswith("__")})
    cls = type("Px_" + name, (PxArray,), {})
    m.px_type = cls
    m.asarray = lambda a, *x, **kw: np.asarray(a, *x, **kw).view(cls)
    return m


PX = {n: make_px(n) for n in ("px1", "px2")}
MODS = {"np": np, **PX}


def mod_name(m):
    for n, x in MODS.items():
        if x is m:
            return n
    return "other"


def enc(a, scale=1):
    if a is None:
        return NOT
    try:
        a = np.asarray(a)
        if a.ndim == 0:
            a = a.reshape(1)
        v = a.astype(np.complex128).ravel() * scale
        out = []
        for x in (v.real, v.imag):
            r = np.rint(x)
            bad = ~np.isfinite(x) | (np.abs(x) > 1e9)
            r = np.where(bad, 0, r)
            bad |= np.abs(np.where(bad, 0, x) - r) > 1e-5
            out.append([BAD if b else int(y) for y, b in zip(r, bad)])
        return {"sh": list(a.shape), "re": out[0], "im": out[1]}
    except Exception:
        return {"sh": [1], "re": [BAD], "im": [BAD]}


class Intern:
    """Opaque encoding: equal arrays get equal numbers."""

    def __init__(self):
        self.ids = {}

    def __call__(self, a, scale=1):
        if a is None:
            return NOT
        try:
            a = np.asarray(a)
            key = (a.shape, np.ascontiguousarray(a.astype(np.complex128) + 0.0).tobytes())
            return {"sh": list(a.shape) or [1], "re": [self.ids.setdefault(key, len(self.ids) + 1)], "im": [0]}
        except Exception:
            return {"sh": [1], "re": [BAD], "im": [BAD]}


def cnum(x, scale=1):
    t = enc(np.asarray(x).reshape(1), scale)
    return [t["re"][0], t["im"][0]]


class World:
    def __init__(self, qs, seed, tid, prof):
        self.qs = qs
        self.rng = np.random.RandomState(seed)
        self.prof = prof
        self.tid = tid
        self.bases, self.systems = [], []
        self.den = []
        self.kind = []          # "plain" / "dvr" / "other"
        self.explicit_bra = []
        self.teo = []
        self.given, self.users = {}, {}
        self.inst = []      # the user's operator instance of a system (None: the system has its own copy)
        self.arrs = []      # arrays the user handed over, from which a copied system is independent
        self.ops = []       # operator instances handed to the systems, with their description
        self.held = {}      # arrays seen or lent so far: id -> [array, its contents, what it is]
        self.ev = []
        self.last_b, self.last_s = [], []
        self.opaque = prof.get("opaque", False)
        self.enc = Intern() if self.opaque else enc
        # The units of energies (h, u, dipole moments) and of the orbitals: powers of two, so that every
        # value is still an exact multiple.  No quantity of the library depends on the unit but by scaling.
        units = [1.0] if self.opaque else prof.get("units", [1.0, 1.0, 2.0 ** -44, 2.0 ** 37])
        rs = np.random.RandomState(seed + 77)
        self.lr = np.random.RandomState(seed + 78)
        self.UE, self.UF = units[rs.randint(len(units))], units[rs.randint(len(units))]
        self.unit = {"h": self.UE, "u": self.UE, "dip": self.UE, "spf": self.UF, "bra": self.UF}
        self.observe_bra = self.rng.rand() < prof.get("observe_bra", 0.6)
        self.dead = False

    # ------------------------------------------------------------ numbers
    def lay(self, a):
        """The same array with another layout in memory."""
        k = self.lr.randint(8)
        if not isinstance(a, np.ndarray) or a.ndim == 0 or k < 3:
            return a
        if k < 5:
            return np.asfortranarray(a)
        if k == 5:      # every second element of a larger array
            w = np.full(a.shape[:-1] + (2 * a.shape[-1],), 55, dtype=a.dtype)
            w[..., ::2] = a
            return w[..., ::2]
        if k == 6:      # reversed
            return a[::-1].copy()[::-1]
        w = np.full(tuple(n + 2 for n in a.shape), 77, dtype=a.dtype)     # a part of a larger array
        v = w[tuple(slice(1, n + 1) for n in a.shape)]
        v[...] = a
        return v

    def ints(self, shape, cplx, hi=2, dens=0.8):
        r = self.rng
        a = r.randint(-hi, hi + 1, size=shape) * (r.rand(*shape) < dens)
        a = a.astype(float)
        if cplx:
            a = a + 1j * (r.randint(-hi, hi + 1, size=shape) * (r.rand(*shape) < dens))
        return a

    def hermitian(self, l, cplx):
        a = self.ints((l, l), cplx, 1)
        return a + a.conj().T

    def two_body(self, l, cplx, style):
        u = self.ints((l, l, l, l), cplx, 1 if style else 2)
        if style >= 1:
            u = u + u.transpose(1, 0, 3, 2)
        if style >= 2:
            u = u + u.conj().transpose(2, 3, 0, 1)
        return u

    def unimodular(self, l, cplx, herm):
        L = np.tril(self.ints((l, l), cplx, 1, 0.5), -1) + np.eye(l)
        if herm:
            return L @ L.conj().T
        U = np.triu(self.ints((l, l), cplx, 1, 0.5), 1) + np.eye(l)
        return L @ U

    def coeff(self, l, l2, style):
        """l x l2 Gaussian integer matrix; style 0: partial permutation with phases, 1: sparse, 2: dense-ish."""
        r = self.rng
        C = np.zeros((l, l2), dtype=complex)
        ph = [1, -1, 1j, -1j]
        rows = r.permutation(l)
        for q in range(l2):
            C[rows[q % l], q] = ph[r.randint(4)]
        if style >= 1:
            for q in range(l2):
                if r.rand() < 0.7:
                    C[r.randint(l), q] += ph[r.randint(4)]
        if style >= 2:
            C = C + self.ints((l, l2), True, 1, 0.3)
        if r.rand() < 0.3:
            C = C.real.copy()
        return C

    def pick_C(self, b, l2, bi):
        """Coefficients (and bra coefficients) within the exact range of the specification."""
        r = self.rng
        mx1 = max([1] + [np.max(np.abs(np.asarray(a)), initial=0) * self.scale(self.bi(b), f)
                         for f in FIELDS for a in [getattr(b, ATTR[f], None) if not (f == "bra" and not self.observe_bra) else None]
                         if a is not None and np.ndim(a) < 4])
        mx2 = max([1] + [np.max(np.abs(np.asarray(a)), initial=0) * self.scale(self.bi(b), f)
                         for f in ("u", "s2tb") for a in [getattr(b, ATTR[f], None)] if a is not None])
        if self.opaque:
            mx1 = mx2 = 1
        if not (mx1 < LIM and mx2 < LIM):
            return None
        big = b.l * l2 > 40
        for style in ([2, 1, 1, 0] if not big else [1, 0]):
            if style == 2 and r.rand() < 0.5:
                continue
            C = self.coeff(b.l, l2, style)
            special = r.randint(8) if l2 == b.l else 7
            if special < 2:
                C = np.eye(b.l) if special else np.eye(b.l)[r.permutation(b.l)]
            if bi:
                Ct = self.coeff(l2, b.l, min(style, 1))
                if special == 2:
                    Ct = np.eye(b.l)
                elif special == 3:
                    C = np.eye(b.l)
                if not np.iscomplexobj(C) or not np.iscomplexobj(Ct):
                    C, Ct = C.astype(complex), Ct.astype(complex)
            else:
                Ct = C.conj().T
            n = lambda M, ax: np.max(np.sum(np.abs(M.real) + np.abs(M.imag), axis=ax))
            c, ct = n(C, 0), n(Ct, 1)
            if mx1 * 2 * c * ct < LIM and mx2 * 2 * (c * ct) ** 2 < LIM:
                return self.lay(C), self.lay(Ct)
        return None

    # -------------------------------------------------------- observation
    def bi(self, b):
        for i, x in enumerate(self.bases):
            if x is b:
                return i
        return None

    def scale(self, i, f):
        d = self.den[i] if i is not None and i < len(self.den) else 1
        return {"sx": 2 * d * d, "sy": 2 * d * d, "sz": 2 * d * d, "s2": 4, "s2tb": 4 * d ** 4}.get(f, 1) / self.unit.get(f, 1)

    def aux(self, b):
        """Digest of the remaining public attributes; a potential counts as what it evaluates to."""
        out = []
        for n in AUX:
            v = getattr(b, n, None)
            if v is None:
                continue
            if n == "potential":
                v = v(XS)
            elif n == "df":
                v = v.to_numpy()
            if isinstance(v, (np.ndarray, list, tuple, int, float, complex, np.generic)):
                v = np.asarray(v)
                out.append((n, v.shape, np.ascontiguousarray(v.astype(np.complex128) + 0.0).tobytes()))
        return self.aux_ids.setdefault(tuple(out), len(self.aux_ids) + 1)

    def obs_b(self, i):
        b = self.bases[i]
        r = {}
        cx, own = True, True
        mod = mod_name(getattr(b, "np", None))
        for f in FIELDS:
            if f == "bra" and not self.observe_bra:
                r[f] = NOT
                continue
            try:
                a = getattr(b, ATTR[f])
            except Exception:
                r[f] = {"sh": [1], "re": [BAD], "im": [BAD]}
                continue
            r[f] = self.enc(a, self.scale(i, f))
            if a is not None:
                cx = cx and bool(np.iscomplexobj(a))
                own = own and (type(a) is np.ndarray if mod == "np" else isinstance(a, getattr(MODS.get(mod), "px_type", ())))
        g = getattr(b, "grid", None)
        r["grid"] = NOT if g is None else (Intern.__call__(self.gi, g) if not isinstance(g, (tuple, list)) else
                                           Intern.__call__(self.gi, np.concatenate([np.ravel(x) for x in g])))
        e = b.nuclear_repulsion_energy
        if self.opaque:
            e = self.enc(np.asarray(e).reshape(1))["re"][0]
        else:
            e = cnum(e, 1 / self.UE)[0]
        r["aux"] = self.aux(b)
        r["clean"] = not any(BAD in r[f]["re"] or BAD in r[f]["im"] for f in FIELDS)
        r.update(l=int(b.l), dim=int(b.dim), spin=bool(b.includes_spin), anti=bool(b.anti_symmetrized_u), enuc=e,
                 cx=cx, own=bool(own), mod=mod, braobs=self.observe_bra)
        return r

    def obs_s(self, j):
        s = self.systems[j]
        b = getattr(s, "_basis_set", None)
        if b is None:
            b = next((v for v in vars(s).values() if isinstance(v, self.qs.BasisSet)), None)
        i = self.bi(b)
        def sl(x):
            if x.step not in (None, 1):
                return [-1, -1]
            return [int(x.start or 0), int(s.l if x.stop is None else x.stop)]
        names = [f for f in FIELDS + ["grid", "enuc"] if (f not in SPIN or not isinstance(s, self.qs.SpatialOrbitalSystem))
                 and (f != "bra" or self.observe_bra)]
        return dict(vn=names, vw=[self.view(s, f) for f in names], vb=[self.view(b, f) for f in names],
                    kind="spas" if isinstance(s, self.qs.SpatialOrbitalSystem) else "gos", b=(i + 1) if i is not None else 0,
                    n=int(s.n), l=int(s.l), m=int(s.m), o=sl(s.o), v=sl(s.v),
                    has1=bool(s.has_one_body_time_evolution_operator), has2=bool(s.has_two_body_time_evolution_operator),
                    mod=mod_name(getattr(s, "np", None)))

    gi = Intern()
    aux_ids = {}
    vi = Intern()

    def view(self, x, f):
        """One quantity as handed out by a basis set or a system: equal numbers for equal contents."""
        try:
            a = getattr(x, dict(ATTR, grid="grid", enuc="nuclear_repulsion_energy")[f])
            if isinstance(a, (tuple, list)):
                a = np.concatenate([np.ravel(y) for y in a])
            t = Intern.__call__(self.vi, a)
            return t["re"][0] if t["re"] else 0
        except Exception:
            return -1

    # ------------------------------------------- arrays handed in and out
    def hold(self, what, *arrays):
        """Remember arrays that were handed out or lent, with their contents."""
        if not self.prof.get("held"):
            return
        for a in arrays:
            if isinstance(a, (list, tuple)) and a and isinstance(a[0], np.ndarray):
                self.hold(what, *a)
            elif isinstance(a, np.ndarray) and a.size and id(a) not in self.held:
                self.held[id(a)] = [a, np.array(a), what]

    def hold_all(self):
        for i, b in enumerate(self.bases):
            for f in FIELDS:
                if f != "bra" or self.observe_bra:
                    self.hold("%s of basis %d" % (f, i + 1), getattr(b, ATTR[f], None))
            for n in ["grid"] + AUX:
                self.hold("%s of basis %d" % (n, i + 1), getattr(b, n, None))

    def written(self, forget=False):
        """Which of them have other contents now?"""
        out = []
        for r in self.held.values():
            same = r[0].shape == r[1].shape and r[0].dtype == r[1].dtype and np.array_equal(r[0], r[1], equal_nan=r[1].dtype.kind in "fc")
            if not same:
                out.append(r[2])
                r[1] = np.array(r[0])
        return [] if forget else sorted(set(out))

    def scribble(self, *arrays):
        """The user reuses arrays that were lent to a request: nothing may depend on them any more."""
        if not self.prof.get("held") or self.dead or self.rng.rand() < 0.5:
            return
        for a in arrays:
            if isinstance(a, np.ndarray) and a.flags.writeable and np.issubdtype(a.dtype, np.number):
                a[...] = 3 * a + 2
            elif isinstance(a, list):
                a[:] = [7] * len(a)
        self.do(dict(op="Scribble"), lambda: None)

    def adopt(self, b, den, kind, explicit):
        self.bases.append(b)
        self.den.append(den)
        self.kind.append(kind)
        self.explicit_bra.append(explicit)

    def emit(self, e, out, exc=""):
        e["out"], e["exc"] = out, exc
        cb, cs = [], []
        try:
            for i in range(len(self.bases)):
                o = self.obs_b(i)
                if i >= len(self.last_b) or self.last_b[i] != o:
                    cb.append({"i": i + 1, "r": o})
                    if i >= len(self.last_b):
                        self.last_b.append(o)
                    else:
                        self.last_b[i] = o
            for j in range(len(self.systems)):
                o = self.obs_s(j)
                if j >= len(self.last_s) or self.last_s[j] != o:
                    cs.append({"i": j + 1, "r": o})
                    if j >= len(self.last_s):
                        self.last_s.append(o)
                    else:
                        self.last_s[j] = o
        except Exception as ex:  # an object that can no longer be observed
            e["out"], e["exc"] = "err", "unobservable state: %r" % ex
            e["cb"], e["cs"] = [], []
            self.ev.append(e)
            self.dead = True
            return
        e["cb"], e["cs"] = cb, cs
        if self.prof.get("held"):
            e["held"] = self.written(e["op"] in ("Poke", "Scribble"))
            self.hold_all()
        self.ev.append(e)

    def call(self, e, f):
        """Issue a request; returns (ok, value)."""
        try:
            v = f()
        except Exception as ex:
            return False, "%s: %s" % (type(ex).__name__, str(ex)[:80])
        return True, v

    def do(self, e, f, after=None):
        ok, v = self.call(e, f)
        if ok and after:
            try:
                after(v)
            except Exception as ex:
                ok, v = False, "result unusable, %s: %s" % (type(ex).__name__, str(ex)[:80])
        self.emit(e, "ok" if ok else "err", "" if ok else v)
        return ok

    # ------------------------------------------------------- requests
    def op_New(self, spin=False, anti=False, l=None, dim=None, kind=None):
        r, p = self.rng, self.prof
        kind = kind or p.get("kind", "plain")
        lmax = p.get("lmax", 3)
        l = l or r.randint(p.get("lmin", 1), lmax + 1)
        if spin:
            l = 2 * l
        if kind == "other":
            return self.new_other()
        dim = dim or (1 if kind == "dvr" else r.randint(1, 4))
        cplx = r.rand() < 0.7
        e = dict(op="NewBasis", b=len(self.bases) + 1, l=int(l), dim=int(dim), spin=bool(spin), anti=bool(anti), bra0=NOT)
        explicit = r.rand() < 0.4

        def build():
            if kind == "dvr":
                l2 = max(2, l)
                e["l"] = int(l2)
                b = self.qs.ODSincDVR(l2, 5, u_repr=["2d", "4d"][r.randint(2)])
                e["dvr"] = True
            else:
                l2 = l
                kw = {}
                if spin or r.rand() < 0.3:
                    kw["includes_spin"] = bool(spin)
                if anti or r.rand() < 0.3:
                    kw["anti_symmetrized_u"] = bool(anti)
                if r.rand() < 0.3:
                    kw["np"] = np
                b = self.qs.BasisSet(l2, dim, **kw)
            herm = r.rand() < 0.6
            b.h = (self.hermitian(l2, cplx) if herm else self.ints((l2, l2), cplx)) * self.UE
            if kind == "dvr":
                d = self.ints((l2, l2), cplx) * self.UE
                if r.rand() < 0.5:
                    d = d + d.T
                if b.u.ndim == 2:
                    b.u = d
                else:
                    u = np.zeros((l2,) * 4, dtype=d.dtype)
                    for a in range(l2):
                        for c in range(l2):
                            u[a, c, a, c] = d[a, c]
                    b.u = u
            else:
                b.u = self.two_body(l2, cplx, r.randint(0, 3)) * self.UE
            opt = p.get("optional", 0.8)
            if kind == "dvr" or r.rand() < max(opt, p.get("s", 0)):
                b.s = np.eye(l2) if r.rand() < 0.35 else self.unimodular(l2, cplx, r.rand() < 0.7)
            if r.rand() < max(opt, p.get("dip", 0)) or kind == "dvr":
                b.dipole_moment = np.array([self.hermitian(l2, cplx) if herm else self.ints((l2, l2), cplx) for _ in range(dim)]) * self.UE
            if r.rand() < max(opt, p.get("spf", 0)) or kind == "dvr":
                g = [r.randint(1, 4) for _ in range(dim)]
                b.spf = self.ints((l2, *g), cplx) * self.UF
                if explicit:
                    b.bra_spf = self.ints((l2, *g), cplx) * self.UF
                    e["bra0"] = enc(b.bra_spf, 1 / self.UF)
                b.grid = np.arange(g[0]) * 1.0
            for nm in ("h", "s", "u", "dipole_moment", "bra_spf"):
                if nm != "bra_spf" or explicit:
                    if getattr(b, nm) is not None:
                        setattr(b, nm, self.lay(getattr(b, nm)))
            if b.spf is not None:
                v, w = b.spf, b.bra_spf if explicit else None
                b.spf = self.lay(v)
                if explicit:
                    b.bra_spf = w
            b.nuclear_repulsion_energy = int(r.randint(0, 9)) if self.UE == 1 else int(r.randint(0, 9)) * self.UE
            if r.rand() < p.get("large", 0.1):
                # numbers that need more than single precision
                b.h[0, l2 - 1] += (2 ** 25 + 1) * self.UE
                if kind != "dvr":
                    b.u[0, 0, 0, 0] += (2 ** 24 + 1) * self.UE
                if b.dipole_moment is not None:
                    b.dipole_moment[dim - 1, 0, 0] += (2 ** 25 + 3) * self.UE
            if spin and r.rand() < 0.7:
                for nm in ("spin_x", "spin_y", "spin_z", "spin_2"):
                    setattr(b, nm, self.ints((l2, l2), True))
                b.spin_2_tb = self.ints((l2,) * 4, True, 1)
            return b

        def after(b):
            self.adopt(b, 1, kind, explicit)
        self.do(e, build, after)

    def new_other(self):
        """Basis sets of every other kind in the library, with their own (real-valued) elements."""
        r, qs = self.rng, self.qs
        which = self.prof.get("which") or r.choice(["odqd", "odho", "tdho", "dvr", "dvr2", "random", "gauss", "dw", "hob"])
        self.which = which
        P = qs.ODQD

        def build():
            np.random.seed(r.randint(10 ** 6))
            if which == "odqd":
                pots = [P.HOPotential(1.0), P.DWPotential(1.0, 2.0), P.DWPotentialSmooth(), P.SymmetricDWPotential(1.0, 0.5, 0.2),
                        P.AsymmetricDWPotential(1.0, 0.2, 0.1), P.AtomicPotential(1)]
                return qs.ODQD(3, 6, 41, potential=pots[r.randint(len(pots))])
            if which == "gauss":
                return qs.ODQD(3, 6, 41, potential=P.GaussianPotential(2.0, 0.3, 1.5, np))
            if which == "odho":
                from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
                return ODHO(3, 6, 41)
            if which == "tdho":
                return qs.TwoDimensionalHarmonicOscillator(3, 4, 11, omega=0.5)
            if which == "dw":
                return qs.TwoDimensionalDoubleWell(3, 4, 11, barrier_strength=2.0, axis=int(r.randint(2)))
            if which == "hob":
                from quantum_systems.quantum_dots.two_dim.two_dim_ho import TwoDimHarmonicOscB
                return TwoDimHarmonicOscB(3, 4, 11, omega=1.0, omega_c=0.7)
            if which == "dvr":
                return qs.ODSincDVR(4, 5, u_repr="4d", potential=P.GaussianPotential(2.0, 0.3, 1.5, np))
            if which == "dvr2":
                return qs.ODSincDVR(4, 5, u_repr="2d")
            return qs.RandomBasisSet(3, 2)
        e = dict(op="NewBasis", b=len(self.bases) + 1, l=0, dim=0, spin=False, anti=False, bra0=NOT)

        def after(b):
            self.adopt(b, 1, "other", False)
            e["l"], e["dim"] = int(b.l), int(b.dim)
        self.do(e, build, after)

    def pair(self, tilt):
        ph = [1, -1, 1j, -1j]
        r = self.rng
        if tilt:
            a, b, den = [((3, 4j), (4j, 3), 5), ((3, 4), (4, -3), 5), ((3j, 4), (-4, -3j), 5), ((1 + 2j, 2), (-2, 1 - 2j), 3),
                         ((2, 1 - 2j), (1 + 2j, -2), 3), ((1 + 2j, 2j), (2j, 1 - 2j), 3)][r.randint(6)]
            # a unit phase on one of them keeps the pair orthonormal
            z = ph[r.randint(4)]
            b = tuple(z * x for x in b)
        else:
            a, b, den = (1, 0), (0, 1), 1
            if r.rand() < 0.2:
                a, b = b, a
            elif r.rand() < 0.3:
                a = tuple(ph[r.randint(4)] * x for x in a)
        return a, b, den

    def pair_args(self, a, b, den):
        g = lambda v: [[int(np.real(x)), int(np.imag(x))] for x in v]
        av, bv = [x / den for x in a], [x / den for x in b]
        form = self.rng.randint(5)
        if form == 1:
            av, bv = tuple(av), tuple(bv)
        elif form == 2:
            av, bv = np.array(av), np.array(bv)
        elif form == 3:
            av, bv = np.array(av).reshape(2, 1), np.array(bv).reshape(2, 1)
        return dict(A=g(a), Bv=g(b), den=den), av, bv

    def can_double(self, b):
        if b.includes_spin:
            return True
        if b.s is None or b.h is None or b.u is None:
            return False
        if b.l > self.prof.get("ldouble", 4):
            return False
        s = np.asarray(b.s, dtype=complex)
        if not np.all(np.isfinite(s)) or np.linalg.cond(s) > 1e6:
            return False
        return bool(np.max(np.abs(s)) < 500 and np.max(np.abs(np.asarray(b.u)), initial=0) < LIM / 4 * self.UE)

    def sig(self, b, den):
        sc = den * den
        xs = [getattr(b, "sigma_" + c, None) for c in "xyz"]
        return [] if any(x is None for x in xs) else [enc(x, sc) for x in xs]

    def op_Double(self, h):
        i = self.pick_b(h, free=True)
        if i is None:
            return
        b = self.bases[i]
        if not self.can_double(b):
            return
        a, bb, den = self.pair(h["tilt"])
        args, av, bv = self.pair_args(a, bb, den)
        e = dict(op="Double", b=i + 1, anti=h["anti"], dvr=self.kind[i] == "dvr", tb=[i + 1], **args)
        was = b.includes_spin
        default = den == 1 and a == (1, 0) and bb == (0, 1) and self.rng.rand() < 0.5
        kw = {} if default else {"a": av, "b": bv if self.rng.rand() < 0.5 else np.array(bv)}
        if not (h["anti"] and self.rng.rand() < 0.5):
            kw["anti_symmetrize"] = h["anti"]

        def after(v):
            if not was:
                self.den[i] = den
                if not self.opaque:
                    e["sig"] = self.sig(b, den)
        self.hold("spin function", av, bv)
        self.do(e, lambda: b.change_to_general_orbital_basis(**kw), after)
        self.scribble(av, bv)

    def op_Anti(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        if not self.opaque and np.max(np.abs(np.asarray(b.u)), initial=0) > LIM / 4 * self.UE:
            return
        e = dict(op="Anti", b=i + 1, dvr=self.kind[i] == "dvr", tb=[i + 1])
        self.do(e, lambda: b.anti_symmetrize_two_body_elements())

    def new_l(self, l, dl, lo):
        r = self.rng
        cap = self.prof.get("lcap", 6)
        if dl < 0:
            n = r.randint(max(lo, 1), max(l, max(lo, 1) + 1))
        elif dl > 0:
            n = min(l + 1, max(cap, lo))
        else:
            n = l
        return max(n, lo, 1)

    def op_Change(self, h):
        i = self.pick_b(h, free=True)
        if i is None:
            return
        b = self.bases[i]
        res = self.pick_C(b, self.new_l(b.l, h["dl"], 1), h["bi"])
        if res is None:
            return
        C, Ct = res
        e = dict(op="Change", b=i + 1, C=enc(C), Ct=enc(Ct), dvr=self.kind[i] == "dvr", tb=[i + 1])
        keep = (C.copy(), Ct.copy())
        self.hold("coefficients", C, Ct)
        if h["bi"]:
            f = (lambda: b.change_basis(C, Ct)) if self.rng.rand() < 0.5 else (lambda: b.change_basis(C, C_tilde=Ct))
        else:
            f = lambda: b.change_basis(C)
        self.do(e, f)
        if not (np.array_equal(C, keep[0]) and np.array_equal(Ct, keep[1])):
            e["out"], e["exc"] = "err", "coefficients modified"
        self.scribble(C, Ct)

    def op_SysChange(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s, i = self.systems[j], self.sb(j)
        b = self.bases[i]
        if sum(1 for k in range(len(self.systems)) if self.sb(k) == i) != 1:
            return
        res = self.pick_C(b, self.new_l(b.l, h["dl"], s.n), h["bi"])
        if res is None:
            return
        C, Ct = res
        e = dict(op="SysChange", s=j + 1, C=enc(C), Ct=enc(Ct), dvr=self.kind[i] == "dvr", tb=[i + 1])
        self.hold("coefficients", C, Ct)
        self.do(e, (lambda: s.change_basis(C, Ct)) if h["bi"] else (lambda: s.change_basis(C)))
        self.scribble(C, Ct)

    def op_CopyB(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        e = dict(op="CopyB", b=i + 1)

        def after(c):
            if any(c is x for x in self.bases):
                raise RuntimeError("the copy is the original")
            self.adopt(c, self.den[i], self.kind[i], self.explicit_bra[i])
        self.do(e, b.copy_basis, after)

    def sb(self, j):
        return self.last_s[j]["b"] - 1

    def reg_sys(self, s, den, kind, explicit, teo):
        b = getattr(s, "_basis_set", None)
        if b is None:
            b = next((v for v in vars(s).values() if isinstance(v, self.qs.BasisSet)), None)
        if self.bi(b) is None:
            self.adopt(b, den, kind, explicit)
        self.systems.append(s)
        self.teo.append(teo)
        self.inst.append(None)
        self.arrs.append([])

    def op_CopyS(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        i = self.sb(j)
        e = dict(op="CopyS", s=j + 1)

        def after(c):
            if any(c is x for x in self.systems):
                raise RuntimeError("the copy is the original")
            self.reg_sys(c, self.den[i], self.kind[i], self.explicit_bra[i], self.teo[j])
            self.arrs[-1] = self.arrs[j] + self.given.get(id(self.inst[j]), [])
        self.do(e, self.systems[j].copy_system, after)

    def op_NewSpas(self, h):
        i = self.pick_b(h, free=True, spin=False)
        if i is None:
            return
        b = self.bases[i]
        N = 2 * int(self.rng.randint(0, b.l + 1))
        e = dict(op="NewSpas", b=i + 1, N=N)
        self.do(e, lambda: self.qs.SpatialOrbitalSystem(N, b),
                lambda s: self.reg_sys(s, 1, self.kind[i], self.explicit_bra[i], None))

    def op_NewGos(self, h):
        i = self.pick_b(h, free=True)
        if i is None:
            return
        b = self.bases[i]
        if not self.can_double(b):
            return
        a, bb, den = self.pair(h["tilt"])
        args, av, bv = self.pair_args(a, bb, den)
        was = b.includes_spin
        n = int(self.rng.randint(0, (b.l if was else 2 * b.l) + 1))
        e = dict(op="NewGos", b=i + 1, n=n, anti=h["anti"], dvr=self.kind[i] == "dvr", tb=[i + 1], **args)
        kw = dict(a=av, b=bv)
        if den == 1 and a == (1, 0) and bb == (0, 1) and self.rng.rand() < 0.5:
            kw = {}
        if not h["anti"] or self.rng.rand() < 0.5:
            kw["anti_symmetrize"] = h["anti"]

        def after(s):
            if not was:
                self.den[i] = den
                if not self.opaque:
                    e["sig"] = self.sig(b, den)
            self.reg_sys(s, den, self.kind[i], self.explicit_bra[i], None)
        self.hold("spin function", av, bv)
        self.do(e, lambda: self.qs.GeneralOrbitalSystem(n, b, **kw), after)
        self.scribble(av, bv)

    def op_MkGos(self, h):
        j = self.pick_s(h, kind="spas")
        if j is None:
            return
        i = self.sb(j)
        b = self.bases[i]
        if not self.can_double(b):
            return
        if self.teo[j] is not None and self.teo[j]["ty"] == "custom":
            return      # known finding, demonstrated by the check of C08
        a, bb, den = self.pair(h["tilt"])
        args, av, bv = self.pair_args(a, bb, den)
        e = dict(op="MkGos", s=j + 1, anti=h["anti"], dvr=self.kind[i] == "dvr", **args)
        kw = dict(a=av, b=bv, anti_symmetrize=h["anti"])

        def after(s):
            self.reg_sys(s, den, self.kind[i], self.explicit_bra[i], self.teo[j])
            self.arrs[-1] = self.arrs[j] + self.given.get(id(self.inst[j]), [])
            nb = self.bases[self.bi(getattr(s, "_basis_set", None))] if self.bi(getattr(s, "_basis_set", None)) is not None else None
            if nb is not None and not self.opaque:
                e["sig"] = self.sig(nb, den)
        self.hold("spin function", av, bv)
        self.do(e, lambda: self.systems[j].construct_general_orbital_system(**kw), after)
        self.scribble(av, bv)

    # time evolution
    def op_SetTeo(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s, b = self.systems[j], self.bases[self.sb(j)]
        r, ty = self.rng, h["ty"]
        qs = self.qs
        nt = len(TIMES)
        given = []
        const = r.rand() < 0.5
        wv = self.ints((nt,), r.rand() < 0.5)
        if const:
            wv = np.full(nt, wv[0])
        # weights need not be integers: wv / wd
        wd = 1 if self.opaque else [1, 2 ** 12, 2 ** 50 if ty == "adia" else 2 ** 12][r.randint(3)]
        if wd == 2 ** 12:
            # close to, but not at, values that may be treated specially
            wv = np.array([[0, 1, 1, -1, 2][k] for k in r.randint(5, size=nt)]) * wd + [-1, 1, 2][r.randint(3)] * (1 if r.rand() < 0.7 else 1j)
            wv = np.full(nt, wv[0]) if const else wv
        jw = [cnum(x) for x in wv]
        wv = wv / wd
        w = wv[0] if const else (lambda t, wv=wv: wv[TIMES.index(t)])
        if ty == "laser":
            if b.dipole_moment is None:
                return
            d = b.dim
            mode = r.randint(3)
            if mode == 0:
                op, pol = qs.time_evolution_operators.LaserField(w), []
            else:
                pv = self.ints((nt, d), r.rand() < 0.3)
                if mode == 1:
                    pv = np.array([pv[0]] * nt)
                    p = pv[0]
                    given = [p]
                else:
                    p = lambda t, pv=pv: pv[TIMES.index(t)]
                op = qs.time_evolution_operators.LaserField(w, polarization_vector=p)
                pol = [[cnum(x) for x in row] for row in pv]
            teo = dict(ty=ty, w=jw, wd=wd, unit=wd, pol=pol)
        elif ty == "adia":
            op = qs.time_evolution_operators.AdiabaticSwitching(w)
            teo = dict(ty=ty, w=jw, unit=wd)    # u(t) is recorded in units of the weights
        elif ty == "custom":
            O = self.ints((b.l, b.l), True) * self.UE
            given = [O]
            op = qs.time_evolution_operators.CustomOneBodyOperator(w, O)
            teo = dict(ty=ty, w=jw, wd=wd, unit=wd, O=enc(O, 1 / self.UE))
        else:
            op, teo = None, dict(ty="none")
        if self.ops and r.rand() < self.prof.get("share", 0.3):
            # one operator may serve several systems
            op2, teo2 = self.ops[r.randint(len(self.ops))]
            fits = dict(adia=lambda: True,
                        laser=lambda: b.dipole_moment is not None and (not teo2["pol"] or len(teo2["pol"][0]) == b.dim),
                        custom=lambda: teo2["O"]["sh"] == [b.l, b.l])
            if fits[teo2["ty"]]():
                op, teo = op2, teo2
                given = self.given.get(id(op), [])
        e = dict(op="SetTeo", s=j + 1, teo={k: x for k, x in teo.items() if k != "unit"})

        def after(v):
            self.teo[j] = teo
            self.inst[j], self.arrs[j] = op, []
            self.hold("array of the operator", *given)
            if op is not None:
                self.given[id(op)] = given
                self.users.setdefault(id(op), set()).add(j)
                self.ops.append((op, teo))
        self.do(e, lambda: s.set_time_evolution_operator(op), after)

    def evaluate(self, j, name, t):
        """Evaluate through the system, or through the operator when only this system was given it; a
        copied system has its own operator, so the arrays the user handed to the original no longer matter."""
        op = self.inst[j]
        if op is not None and self.users[id(op)] == {j} and self.rng.rand() < 0.4:
            return getattr(op, name)(t)
        keep = [a.copy() for a in self.arrs[j]]
        try:
            for a in self.arrs[j]:
                a[...] = 3 * a + 1
            return getattr(self.systems[j], name)(t)
        finally:
            for a, k in zip(self.arrs[j], keep):
                a[...] = k

    def op_Ht(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s = self.systems[j]
        b = self.bases[self.sb(j)]
        teo = self.teo[j]
        if teo and teo["ty"] == "custom" and teo["O"]["sh"] != [b.l, b.l]:
            return
        wd = self.wunit(teo, ("laser", "custom"), b.h, b.dipole_moment)
        for k in self.rng.permutation(len(TIMES))[:2] if wd else []:
            e = dict(op="Ht", s=j + 1, t=int(k) + 1, ret=NOT)
            self.do(e, lambda: self.evaluate(j, "h_t", TIMES[k]), lambda v: (self.hold("h(t) handed out", v), e.update(ret=self.enc(v, wd / self.UE))))

    def wunit(self, teo, kinds, *arrs):
        """The unit in which the elements at some time are integers; None: too large to be recorded."""
        if not teo or teo["ty"] not in kinds or teo["unit"] == 1:
            return 1
        b = max(max(abs(x) for x in w) for w in teo["w"])
        if teo["ty"] == "laser":
            b *= 16
        big = max(b, teo.get("wd", 1)) * max(np.max(np.abs(np.asarray(a)), initial=0) for a in arrs if a is not None) / self.UE
        return teo["unit"] if big < LIM / 8 else None

    def op_Ut(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s = self.systems[j]
        wd = self.wunit(self.teo[j], ("adia",), s.u)
        for k in self.rng.permutation(len(TIMES))[:2] if wd else []:
            e = dict(op="Ut", s=j + 1, t=int(k) + 1, ret=NOT)
            self.do(e, lambda: self.evaluate(j, "u_t", TIMES[k]),
                    lambda v: (self.hold("u(t) handed out", v), e.update(ret=self.enc(v, wd / self.UE))))

    # energies
    def op_Energy(self, h):
        j = self.pick_s(h)
        if j is None or np.ndim(self.systems[j].u) != 4 or self.big(self.systems[j].u):
            return
        e = dict(op="Energy", s=j + 1, ret=[0, 0])
        self.do(e, self.systems[j].compute_reference_energy, lambda v: e.update(ret=cnum(v, 2 / self.UE)))

    def big(self, u):
        return bool(np.max(np.abs(np.asarray(u)), initial=0) > LIM / 300 * self.UE)

    def op_Fock(self, h):
        for _ in range(2 if self.prof.get("held") else 1):
            self.fock(h)

    def fock(self, h):
        j = self.pick_s(h)
        if j is None or np.ndim(self.systems[j].u) != 4 or self.big(self.systems[j].u):
            return
        s = self.systems[j]
        r = self.rng
        own = bool(r.rand() < 0.5) and not (np.iscomplexobj(s.u) and not np.iscomplexobj(s.h))
        if own:
            hh, uu = s.h, s.u
        else:
            cp = r.rand() < 0.7
            hh, uu = self.lay(self.ints((s.l, s.l), cp) * self.UE), self.lay(self.ints((s.l,) * 4, cp) * self.UE)
        k = (np.array(hh), np.array(uu))
        buf = None
        if r.rand() < (0.2 if self.prof.get("held") else 0.6):
            buf = np.full((s.l, s.l), 7.5 - 3j)
            if r.rand() < 0.3:
                buf[:] = np.nan
        e = dict(op="Fock", s=j + 1, own=own, ret=NOT, argmod=False, h=NOT if own else enc(hh, 1 / self.UE), u=NOT if own else enc(uu, 1 / self.UE))

        self.hold("argument of construct_fock_matrix", hh, uu)

        def after(v):
            res = v if buf is None else buf
            if buf is not None and not np.array_equal(np.asarray(v), buf):
                res = np.full_like(buf, np.nan)
            e.update(ret=self.enc(res, 1 / self.UE), argmod=not (np.array_equal(k[0], hh) and np.array_equal(k[1], uu)))
        if buf is None:
            self.do(e, lambda: s.construct_fock_matrix(hh, uu), lambda v: (self.hold("Fock matrix", v), after(v)))
        else:
            self.do(e, (lambda: s.construct_fock_matrix(hh, uu, f=buf)) if r.rand() < 0.5 else
                    (lambda: s.construct_fock_matrix(hh, uu, buf)), after)
            self.hold("Fock matrix", buf)
        if not own:
            self.scribble(hh, uu)

    # densities
    def density(self, i, target):
        b = self.bases[i]
        r = self.rng
        if b.spf is None or (not self.opaque and np.max(np.abs(b.spf)) > 2000 * self.UF):
            return
        C = Ct = None
        n = b.l
        dflt = True
        if r.rand() < 0.5:
            n = max(1, b.l + r.randint(-1, 2))
            C = self.coeff(b.l, n, 1)
            Ct = C.conj().T
            if r.rand() < 0.4:
                C = C.astype(complex)
                Ct = self.coeff(n, b.l, 1).astype(complex)
                dflt = False
        rho = self.hermitian(n, r.rand() < 0.7) if r.rand() < 0.3 else self.ints((n, n), r.rand() < 0.7)
        if self.observe_bra and not self.opaque and r.rand() < 0.35:
            # widely different magnitudes, as far as the exact range of the specification allows
            o = self.last_b[i]
            ab = lambda M: np.abs(np.real(M)) + np.abs(np.imag(M))
            flat = lambda t: (np.abs(t["re"]) + np.abs(t["im"])).reshape(t["sh"][0], -1)
            ket, bra = flat(o["spf"]), flat(o["bra"])
            if C is not None:
                ket, bra = ab(C).T @ ket, ab(Ct) @ bra
            top = (9e8 - np.max(np.sum(ket, 0) * np.sum(bra, 0))) / max(1, np.max(np.sum(ket * bra, 0)))
            top = min(top, 9e8 / max(1, np.max(ket, initial=0), np.max(bra, initial=0)))
            if top > 100:
                rho = self.ints((n, n), r.rand() < 0.7, 1)
                rho[np.arange(n), np.arange(n)] = int(top)
        e = dict(op="Density", b=i + 1, rho=enc(rho), C=enc(C), Ct=enc(Ct), ret=NOT)
        kw = {} if C is None else ({"C": C} if dflt else {"C": C, "C_tilde": Ct})
        ur = 1.0 if self.opaque else [1.0, 1.0, 2.0 ** -45, 2.0 ** 39][r.randint(4)]
        rho, C, Ct = self.lay(rho * ur), self.lay(C), self.lay(Ct)
        self.hold("argument of compute_particle_density", rho, C, Ct)
        self.do(e, lambda: target.compute_particle_density(rho, **kw), 
                lambda v: (self.hold("particle density handed out", v), e.update(ret=self.enc(v, 1 / (ur * self.UF ** 2)))))
        self.scribble(rho, C, Ct)

    def op_DensityB(self, h):
        i = self.pick_b(h)
        self.density(i, self.bases[i])

    def op_Density(self, h):
        j = self.pick_s(h)
        if j is not None:
            self.density(self.sb(j), self.systems[j])

    def op_ReadBra(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        if b.spf is None:
            return
        e = dict(op="ReadBra", b=i + 1, ret=NOT)
        self.do(e, lambda: b.bra_spf, lambda v: e.update(ret=self.enc(v, 1 / self.UF)))

    # helper transformations
    def op_GetT(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        res = self.pick_C(b, max(1, b.l + self.rng.randint(-1, 2)), False)
        if res is None:
            return
        C = res[0]
        e = dict(op="GetT", b=i + 1, C=enc(C), rh=NOT, ru=NOT)
        self.hold("coefficients", C)
        self.do(e, lambda: (b.get_transformed_h(C), b.get_transformed_u(C)), 
                lambda v: (self.hold("transformed elements handed out", *v), e.update(rh=self.enc(v[0], 1 / self.UE), ru=self.enc(v[1], 1 / self.UE))))
        self.scribble(C)

    def op_XfS(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s = self.systems[j]
        r = self.rng
        l = s.l
        l2 = max(1, l + r.randint(-1, 2))
        ux = [1.0, 2.0 ** -41, 2.0 ** 33][r.randint(3)]
        X = self.ints((l, l), True) * ux
        U = self.ints(np.shape(s.u), True) * ux
        C = self.coeff(l, l2, 1)
        bi = r.rand() < 0.5
        Ct = self.coeff(l2, l, 1) if bi else C.conj().T
        k = X.copy(), U.copy()
        e = dict(op="XfS", s=j + 1, X=enc(X, 1 / ux), U=enc(U, 1 / ux), C=enc(C), Ct=enc(Ct), rh=NOT, ru=NOT, argmod=False)
        kw = {"C_tilde": Ct} if bi else {}

        self.hold("argument of transform_*_elements", X, U, C, Ct)

        def after(v):
            self.hold("transformed elements handed out", *v)
            e.update(rh=enc(v[0], 1 / ux), ru=enc(v[1], 1 / ux), argmod=not (np.array_equal(X, k[0]) and np.array_equal(U, k[1])))
        self.do(e, lambda: (s.transform_one_body_elements(X, C, **kw), s.transform_two_body_elements(U, C, **kw)), after)
        self.scribble(X, U, C, Ct)

    def op_Help(self, h):
        for _ in range(self.prof.get("helps", 2)):
            self.helper(self.pick_b(h))

    def helper(self, i):
        """One of the public helper functions, with arguments of its own."""
        r, qs = self.rng, self.qs
        b = self.bases[i]
        cls = type(b)
        own = cls if r.rand() < 0.6 else b
        l = int(r.randint(1, self.prof.get("lhelp", 3) + 1))
        cp = r.rand() < 0.7
        ux = [1.0, 1.0, 2.0 ** -43, 2.0 ** 31][r.randint(4)]
        M = lambda *sh: self.ints(sh, cp)
        spf = lambda: M(l, *[r.randint(1, 4) for _ in range(r.randint(1, 4))])
        flat = isinstance(b, qs.ODSincDVR)
        compact = flat and r.rand() < 0.6
        two = lambda n: M(n, n) if compact else M(n, n, n, n)
        fns = ["spf", "bra", "none", "one", "two", "anti", "pauli", "s2", "xspf", "xbra", "x1", "x1t", "x2", "x2t", "dens", "axes", "herm", "dipherm",
               "exch", "arr", "delta"]
        if flat:
            fns += ["two", "x2", "x2t", "x2a", "x2at"]
        fn = fns[r.randint(len(fns))]
        e = dict(op="Help", fn=fn, b=i + 1, x=[], ret=[], argmod=False, dvr=bool(flat))
        sc = 1.0
        if fn in ("spf", "bra"):
            x = [spf() * ux]
            f = lambda: (own.add_spin_spf if fn == "spf" else own.add_spin_bra_spf)(x[0], np)
            sc = 1 / ux
        elif fn == "none":
            x = []
            f = lambda: () if own.add_spin_bra_spf(None, np) is None and own.change_arr_module(None, np) is None else np.zeros(1)
        elif fn == "one":
            x, sc = [M(l, l) * ux], 1 / ux
            f = lambda: own.add_spin_one_body(x[0], np=np)
        elif fn == "two":
            x, sc = [two(l) * ux], 1 / ux
            f = lambda: own.add_spin_two_body(x[0], np=np)
        elif fn == "anti":
            x, sc = [M(l, l, l, l) * ux], 1 / ux
            f = lambda: own.anti_symmetrize_u(x[0])
        elif fn == "pauli":
            a, bb, den = self.pair(r.rand() < 0.7)
            e.update(A=[[int(np.real(z)), int(np.imag(z))] for z in a], Bv=[[int(np.real(z)), int(np.imag(z))] for z in bb], den=den)
            x = [np.array(a, dtype=complex).reshape(-1, 1) / den, np.array(bb, dtype=complex).reshape(-1, 1) / den]
            f = lambda: own.setup_pauli_matrices(x[0], x[1], np)
            sc = den * den
        elif fn == "s2":
            s = self.unimodular(l, cp, r.rand() < 0.5)
            inv = np.rint(np.linalg.inv(s) * 1.0)
            e["inv"] = enc(inv)
            x = [self.ints((l, l), True, 1).astype(complex) for _ in range(3)] + [s]
            f = lambda: own.setup_spin_squared_operator(*x, np)
        elif fn in ("xspf", "xbra"):
            l2 = max(1, l + r.randint(-1, 2))
            x, sc = [spf() * ux, M(l, l2) if fn == "xspf" else M(l2, l)], 1 / ux
            f = lambda: own.transform_spf(x[0], x[1], np) if fn == "xspf" else own.transform_bra_spf(x[0], x[1], np)
        elif fn in ("x1", "x1t"):
            l2 = max(1, l + r.randint(-1, 2))
            x, sc = [M(l, l) * ux, M(l, l2), M(l2, l)], 1 / ux
            f = lambda: own.transform_one_body_elements(x[0], x[1], np, **({"C_tilde": x[2]} if fn == "x1t" else {}))
        elif fn in ("x2", "x2t", "x2a", "x2at"):
            if flat:
                own = b
                compact = b.u.ndim == 2
                l = min(l, 3)
                if fn in ("x2a", "x2at") and not compact:
                    return
            l2 = max(1, l + r.randint(-1, 2))
            x, sc = [two(l) * ux, self.coeff(l, l2, 1), self.coeff(l2, l, 1)], 1 / ux
            kw = {"C_tilde": x[2]} if "t" in fn else {}
            if "a" in fn:
                kw["anti_symmetrize"] = True
            f = lambda: own.transform_two_body_elements(x[0], x[1], np, **kw)
        elif fn == "dens":
            from quantum_systems.system_helper import compute_particle_density as cpd
            k = spf()
            rho = self.hermitian(l, cp) if r.rand() < 0.35 else M(l, l)
            if r.rand() < 0.15:
                rho = np.diag(np.diag(rho))
            x, sc = [rho * ux, k, self.ints(k.shape, cp)], 1 / ux
            f = lambda: cpd(x[0], x[1], x[2], np)
        elif fn == "axes":
            x = [np.zeros([l + (r.rand() < 0.3) for _ in range(r.randint(1, 5))])]
            e["sh"], e["len"] = list(x[0].shape), l
            f = lambda: np.array([int(bool(v)) for v in own.check_axis_lengths(x[0], l)])
        elif fn == "herm":
            x, sc = [M(l, l) * ux], 2 / ux
            f = lambda: qs.RandomBasisSet.make_hermitian(x[0])
        elif fn == "dipherm":
            x, sc = [M(r.randint(1, 4), l, l) * ux], 2 / ux
            keep0 = x[0].copy()
            f = lambda: qs.RandomBasisSet.make_dipole_moment_hermitian(keep0)
        elif fn == "exch":
            x, sc = [M(l, l, l, l) * ux], 2 / ux
            f = lambda: qs.RandomBasisSet.make_two_body_symmetry(x[0])
        elif fn == "arr":
            name = ["np", "px1", "px2"][r.randint(3)]
            x, sc = [M(l, l, 2) * ux], 1 / ux
            typ = np.ndarray if name == "np" else MODS[name].px_type

            def f():
                v = own.change_arr_module(x[0], MODS[name])
                return v if isinstance(v, typ) else np.full(1, np.nan)
        else:
            from quantum_systems.system_helper import delta, spin_delta
            p, q = [int(z) for z in r.randint(0, 7, size=2)]
            e["p"], e["q"] = p, q
            x = []
            f = lambda: np.array([int(delta(p, q)), int(spin_delta(p, q))])
        # a scaled argument is recorded in its own unit
        e["x"] = [enc(a, (1 / ux if k == 0 and sc != 1.0 and fn not in ("pauli",) else 1)) if fn != "pauli" else NOT for k, a in enumerate(x)]
        x = [self.lay(a) for a in x]
        keep = [a.copy() for a in x]
        self.hold("argument of a helper", *x)

        def after(v):
            v = v if isinstance(v, (tuple, list)) else (v,)
            self.hold("result of a helper", *v)
            e.update(ret=[enc(a, sc) for a in v], argmod=not all(np.array_equal(a, k) for a, k in zip(x, keep)))
        self.do(e, f, after)
        if fn not in ("arr",):
            self.scribble(*x)

    # casts and modules
    def op_Cast(self, h):
        i = self.pick_b(h)
        self.do(dict(op="Cast", b=i + 1, tb=[i + 1]), self.bases[i].cast_to_complex)

    def op_ModB(self, h):
        i = self.pick_b(h, free=True)
        if i is None:
            return
        m = ["np", "px1", "px2"][self.rng.randint(3)]
        self.do(dict(op="ModB", b=i + 1, mod=m, tb=[i + 1]), lambda: self.bases[i].change_module(MODS[m]))

    def op_ModS(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        m = ["np", "px1", "px2"][self.rng.randint(3)]
        self.do(dict(op="ModS", s=j + 1, mod=m, tb=[self.sb(j) + 1]), lambda: self.systems[j].change_module(MODS[m]))

    # in-place writes: one event per array
    def op_Poke(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        r = self.rng
        fields = [f for f in FIELDS if not (f == "bra" and not self.observe_bra)]
        r.shuffle(fields)
        for f in fields[:self.prof.get("pokes", 3)]:
            try:
                a = getattr(b, ATTR[f])
            except Exception:
                continue
            if a is None or np.size(a) == 0:
                continue
            if f in ("spf", "bra") and not np.iscomplexobj(a):
                continue
            a = np.asarray(a)
            if not a.flags.writeable:
                continue
            k = tuple(r.randint(x) for x in a.shape)
            e = dict(op="Poke", b=i + 1, f=f)

            def wr():
                a[k] = a[k] + self.unit.get(f, 1)
            self.do(e, wr)
        g = getattr(b, "grid", None)
        if isinstance(g, np.ndarray) and g.flags.writeable and r.rand() < 0.5:
            def wg():
                g[tuple(0 for _ in g.shape)] += 1
            self.do(dict(op="Poke", b=i + 1, f="grid"), wg)
        have = [n for n in AUX if isinstance(getattr(b, n, None), np.ndarray) or n in ("potential", "df") and getattr(b, n, None) is not None]
        r.shuffle(have)
        for n in have[:self.prof.get("pokes", 3)]:
            v = getattr(b, n)

            def wa():
                if n == "df":
                    v.loc[v.index[0], "E"] += 1
                elif n == "potential":
                    a = next(x for x in PARAM if isinstance(getattr(v, x, None), (int, float)))
                    setattr(v, a, getattr(v, a) * 1.5 + 0.5)
                elif v.flags.writeable:
                    v[tuple(0 for _ in v.shape)] += 1
            self.do(dict(op="Poke", b=i + 1, f="aux"), wa)

    def op_Set(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        r = self.rng
        f = ["h", "s", "u", "dip", "spf", "bra", "spf"][r.randint(7 if self.prof.get("setf") else 4)]
        if self.prof.get("setf") == 2 and r.rand() < 0.6:
            f = (["enuc", "grid"] + (SPIN if b.includes_spin else []))[r.randint(7 if b.includes_spin else 2)]
            if f == "enuc":
                v = int(r.randint(-20, 20))
                self.do(dict(op="Set", b=i + 1, f=f, v=v), lambda: setattr(b, "nuclear_repulsion_energy", v * self.UE))
            elif f == "grid":
                v = r.randint(50, 99) + np.arange(r.randint(1, 4)) * 0.5
                self.do(dict(op="Set", b=i + 1, f=f, v=Intern.__call__(self.gi, v)), lambda: setattr(b, "grid", v))
            else:
                v = self.lay(self.ints((b.l,) * (4 if f == "s2tb" else 2), True, 1))
                self.do(dict(op="Set", b=i + 1, f=f, v=enc(v, self.scale(i, f))), lambda: setattr(b, ATTR[f], v))
            return
        if f in ("spf", "bra"):
            if b.spf is None or not np.iscomplexobj(b.spf) or (not self.observe_bra and (
                    f == "bra" or any(e["op"] in ("Change", "SysChange") for e in self.ev))):
                return
            v = self.lay(self.ints(np.shape(b.spf), True) * self.UF)
            self.do(dict(op="Set", b=i + 1, f=f, v=enc(v, 1 / self.UF)), lambda: setattr(b, ATTR[f], v))
            return
        if getattr(b, ATTR[f]) is None and f != "dip":
            return
        l = b.l
        v = {"h": lambda: self.ints((l, l), True), "s": lambda: self.unimodular(l, True, True),
             "u": lambda: self.two_body(l, True, r.randint(2)), "dip": lambda: self.ints((b.dim, l, l), True)}[f]() * self.unit.get(f, 1)
        v = self.lay(v)
        e = dict(op="Set", b=i + 1, f=f, v=enc(v, 1 / self.unit.get(f, 1)))
        self.do(e, lambda: setattr(b, ATTR[f], v))

    def op_SetSize(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s = self.systems[j]
        l = self.bases[self.sb(j)].l
        n = int(self.rng.randint(0, l + 1))
        self.do(dict(op="SetSize", s=j + 1, n=n, l=int(l)), lambda: s.set_system_size(n, l))

    def op_SetRepr(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        if self.kind[i] != "dvr":
            return
        u = np.asarray(b.u)
        if u.ndim == 4:
            d = u.copy()
            idx = np.arange(b.l)
            d[idx[:, None], idx[None, :], idx[:, None], idx[None, :]] = 0
            if np.any(d):
                return
        rep = ["2d", "4d"][self.rng.randint(2)]
        import contextlib
        import io

        def f():
            with contextlib.redirect_stdout(io.StringIO()):
                b.set_u_repr(rep)
        self.do(dict(op="SetRepr", b=i + 1, repr=rep, dvr=True), f)

    # ------------------------------------------------ invalid requests
    def op_BadSet(self, h):
        i = self.pick_b(h)
        names = ["h", "s", "u", "dip", "spf", "bra", "dipn", "dipc", "dipc", "u"]
        k0 = self.rng.randint(len(names))
        for k in range(4):
            self.bad_set(i, names[(k0 + 3 * k) % len(names)])

    def bad_set(self, i, f):
        b = self.bases[i]
        r = self.rng
        l = b.l
        off = l + [1, -1, 2][r.randint(3)]
        off = off if off > 0 else l + 1
        if f in ("h", "s", "u"):
            rank = 4 if f == "u" else 2
            sh = [l] * rank
            if r.rand() < 0.7:
                sh[r.randint(rank)] = off
            else:
                sh = [off] * rank
        elif f in ("dip", "dipc"):
            sh = [b.dim, l, l]
            sh[1 + r.randint(2)] = off
        elif f == "dipn":
            f = "dip"
            sh = [b.dim + [1, -1][r.randint(2)], l, l]
            if sh[0] == 0:
                sh[0] = b.dim + 1
        else:
            g = [2] * b.dim
            if r.rand() < 0.5:
                sh = [off] + g
            else:
                sh = [l] + g + [2] if r.rand() < 0.6 or b.dim == 1 else [l] + g[1:]
        v = np.ones(sh) * 3
        if r.rand() < 0.4:
            v = v + 1j
        e = dict(op="Set", b=i + 1, f="dip" if f == "dipc" else f, v=enc(v))
        if f == "dipc" and b.dim > 1:
            # only one component does not fit
            one = r.randint(b.dim)
            v = [v[0] if c == one else np.ones((l, l)) for c in range(b.dim)]
        f = e["f"]
        self.do(e, lambda: setattr(b, ATTR[f], v))

    def op_BadRepr(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        r = self.rng
        if self.kind[i] == "dvr":
            for rep in [["3d", "sparse", "", "2D", "4 d", None][k] for k in r.permutation(6)[:3]]:
                self.do(dict(op="Bad", what="set_u_repr"), lambda: b.set_u_repr(rep))
                self.do(dict(op="Bad", what="u_repr of a new sinc-DVR basis"), lambda: self.qs.ODSincDVR(3, 4, u_repr=rep))
        if b.spf is None:
            t = b if r.rand() < 0.5 or not self.systems else self.systems[0]
            if t.spf is None:
                self.do(dict(op="Bad", what="density without functions"), lambda: t.compute_particle_density(np.eye(b.l)))

    def op_BadSpinSet(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        r = self.rng
        f = ["sx", "sy", "sz", "s2", "s2tb", "sigma_x", "sigma_y", "sigma_z"][r.randint(8)]
        l = b.l
        if f.startswith("sigma"):
            if not b.includes_spin:
                self.do(dict(op="Set", b=i + 1, f=f, v=NOT), lambda: setattr(b, f, np.eye(2) * 5))
            return
        if b.includes_spin:
            l = l + 1
        v = np.ones((l,) * (4 if f == "s2tb" else 2)) * 5
        self.do(dict(op="Set", b=i + 1, f=f, v=enc(v, self.scale(i, f))), lambda: setattr(b, ATTR[f], v))

    def op_BadSpas(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        r = self.rng
        if b.includes_spin:
            N = 2 * r.randint(0, b.l + 1)
        else:
            N = [2 * b.l + 2, 2 * r.randint(0, b.l + 1) + 1, 2 * b.l + 1, 2 * b.l + 4][r.randint(4)]
        e = dict(op="NewSpas", b=i + 1, N=int(N))
        self.do(e, lambda: self.qs.SpatialOrbitalSystem(int(N), b), lambda s: self.reg_sys(s, 1, self.kind[i], False, None))

    def op_BadGos(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        if not self.can_double(b):
            return
        n = (b.l if b.includes_spin else 2 * b.l) + 1 + self.rng.randint(3)
        anti = bool(self.rng.rand() < 0.5)
        e = dict(op="NewGos", b=i + 1, n=int(n), anti=anti, A=[[1, 0], [0, 0]], Bv=[[0, 0], [1, 0]], den=1)
        self.do(e, lambda: self.qs.GeneralOrbitalSystem(int(n), b, anti_symmetrize=anti),
                lambda s: self.reg_sys(s, 1, self.kind[i], False, None))

    def badpair(self):
        r = self.rng
        return [((1, 0), (1, 0), 1), ((1, 0), (0, 2), 1), ((2, 0), (0, 1), 1), ((1, 0), (1, 1), 1), ((3, 4j), (4, 3j), 5),
                ((3, 4), (4, 3), 5), ((1, 1), (1, -1), 1), ((3, 4), (0, 5), 5), ((5, 0), (3, 4), 5), ((0, 1), (1j, 1), 1),
                # close to orthonormal; overlap purely imaginary
                ((10000, 0), (0, 10001), 10000), ((9999, 0), (0, 10000), 10000), ((10001, 0), (200, 9999), 10001), ((901, 0), (60j, 899), 901),
                ((1, 0), (1j, 0), 1), ((3, 4), (3j, 4j), 5), ((3, 4j), (4j, -3), 5), ((1, 1j), (1j, 1), 1)][r.randint(18)]

    def op_BadPair(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        if b.includes_spin or not self.can_double(b):
            return
        args, av, bv = self.pair_args(*self.badpair())
        anti = bool(self.rng.rand() < 0.5)
        if self.rng.rand() < 0.5:
            self.do(dict(op="Double", b=i + 1, anti=anti, tb=[i + 1], **args),
                    lambda: b.change_to_general_orbital_basis(a=av, b=bv, anti_symmetrize=anti))
        else:
            n = int(self.rng.randint(0, b.l + 1))
            self.do(dict(op="NewGos", b=i + 1, n=n, anti=anti, **args),
                    lambda: self.qs.GeneralOrbitalSystem(n, b, a=av, b=bv, anti_symmetrize=anti),
                    lambda s: self.reg_sys(s, 1, self.kind[i], False, None))

    def op_BadMkGos(self, h):
        j = self.pick_s(h, kind="spas")
        if j is None:
            return
        i = self.sb(j)
        if not self.can_double(self.bases[i]) or (self.teo[j] and self.teo[j]["ty"] == "custom"):
            return
        args, av, bv = self.pair_args(*self.badpair())
        e = dict(op="MkGos", s=j + 1, anti=True, **args)
        self.do(e, lambda: self.systems[j].construct_general_orbital_system(a=av, b=bv),
                lambda s: self.reg_sys(s, 1, self.kind[i], False, None))

    def badC(self, l, n=0):
        r = self.rng
        m = r.randint(8)
        if m == 6:
            return self.coeff(l, l + 1, 1), self.coeff(l + 2, l, 1), False
        if m == 7:
            return self.coeff(l, max(1, l - 1), 1), self.coeff(l + (l == 1), l, 1), False
        if m == 0:
            C = self.coeff(l + 1, l, 1)
            return C, C.conj().T, True
        if m == 1 and l > 1:
            C = self.coeff(l - 1, l, 1)
            return C, C.conj().T, True
        if m == 2:
            return self.coeff(l, l, 1), self.coeff(l, l + 1, 1), False
        if m == 3:
            return self.coeff(l, l, 1), self.coeff(l + 1, l, 1), False
        if m == 4:
            return self.coeff(l, l + 1, 1), self.coeff(l, l + 1, 1), False   # C~ not transposed
        C = self.coeff(l + 2, l + 1, 1)
        return C, C.conj().T, True

    def op_BadChange(self, h):
        i = self.pick_b(h)
        b = self.bases[i]
        C, Ct, d = self.badC(b.l)
        e = dict(op="Change", b=i + 1, C=enc(C), Ct=enc(Ct), tb=[i + 1])
        self.do(e, (lambda: b.change_basis(C)) if d else (lambda: b.change_basis(C, Ct)))

    def op_BadSysChange(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s = self.systems[j]
        l = self.bases[self.sb(j)].l
        if self.rng.rand() < 0.6 and s.n > 1:
            C = self.coeff(l, self.rng.randint(1, s.n), 1)
            Ct, d = C.conj().T, True
            if self.rng.rand() < 0.4:
                Ct, d = self.coeff(C.shape[1], l, 1), False
        else:
            C, Ct, d = self.badC(l)
        e = dict(op="SysChange", s=j + 1, C=enc(C), Ct=enc(Ct))
        self.do(e, (lambda: s.change_basis(C)) if d else (lambda: s.change_basis(C, Ct)))

    def op_BadSize(self, h):
        j = self.pick_s(h)
        if j is None:
            return
        s = self.systems[j]
        l = self.bases[self.sb(j)].l
        n = int(l + 1 + self.rng.randint(3))
        self.do(dict(op="SetSize", s=j + 1, n=n, l=int(l)), lambda: s.set_system_size(n, l))

    # -------------------------------------------------------- selection
    def pick_b(self, h, free=False, spin=None):
        """The basis a history names, or the nearest one for which the request makes sense."""
        n = len(self.bases)
        order = [(h["b"] - 1 + d) % n for d in range(n)]
        for i in order:
            if free and any(x["b"] == i + 1 for x in self.last_s):
                continue
            if spin is not None and bool(self.bases[i].includes_spin) != spin:
                continue
            return i
        return None

    def pick_s(self, h, kind=None):
        n = len(self.systems)
        for j in [(h["s"] - 1 + d) % n for d in range(n)] if n else []:
            if kind and self.last_s[j]["kind"] != kind:
                continue
            return j
        return None

    def run(self, hist):
        self.op_New()
        for h in hist:
            if self.dead or not self.bases or self.out_of_range() or len(self.ev) > self.prof.get("maxev", 40):
                break
            if h["op"] == "New":
                self.op_New(h["spin"], h["anti"])
            else:
                getattr(self, "op_" + h["op"])(h)
        if not self.observe_bra and not self.dead and not self.out_of_range():
            for i in range(len(self.bases)):    # bra functions nobody looked at so far
                self.op_ReadBra({"b": i + 1})
        return {"id": self.tid, "opaque": self.opaque, "ev": self.ev}

    def out_of_range(self):
        return not self.opaque and not all(o["clean"] for o in self.last_b)


def main():
    job = json.load(open(sys.argv[1]))
    import quantum_systems as qs
    import quantum_systems.time_evolution_operators  # noqa: F401
    if not qs.__file__.startswith("/repo/"):
        sys.exit("wrong package " + qs.__file__)
    traces = []
    for k, h in enumerate(job["histories"]):
        prof = dict(job["profile"])
        for key, vals in prof.pop("cycle", {}).items():
            prof[key] = vals[k % len(vals)]
        w = World(qs, (job["seed"] * 7919 + h.get("salt", 0)) % (2 ** 31), h["id"], prof)
        tr = w.run(h["ops"])
        if tr["ev"]:
            traces.append(tr)
    json.dump(traces, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
