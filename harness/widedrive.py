"""Histories of operations on large basis sets (see spec/QSWide.tla).

usage: widedrive.py JOB.json OUT.json

The two-body elements are sums of few products of matrices of small Gaussian integers, so the specification
can say what every element is without handling the whole tensor.  Of each four-index array the shape, some
elements and sums of all elements with random signs are recorded.
"""
import json
import sys
import warnings

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

BAD = 2000000011
NOT = {"sh": [], "re": [], "im": []}
ATTR = {"h": "h", "s": "s", "dip": "dipole_moment", "spf": "spf", "bra": "bra_spf", "sx": "spin_x", "sy": "spin_y", "sz": "spin_z", "s2": "spin_2"}
SCALE = {"sx": 2, "sy": 2, "sz": 2, "s2": 4}


def ints(v):
    r = np.rint(v)
    bad = ~np.isfinite(v) | (np.abs(v) > 1e9)
    r = np.where(bad, 0, r)
    bad |= np.abs(np.where(bad, 0, v) - r) > 1e-5
    return [BAD if b else int(x) for x, b in zip(r, bad)]


def enc(a, scale=1):
    if a is None:
        return NOT
    try:
        a = np.asarray(a)
        v = a.astype(np.complex128).ravel() * scale
        return {"sh": list(a.shape) or [1], "re": ints(v.real), "im": ints(v.imag)}
    except Exception:
        return {"sh": [1], "re": [BAD], "im": [BAD]}


class World:
    def __init__(self, qs, seed, tid, prof):
        self.qs, self.tid, self.prof = qs, tid, prof
        self.r = np.random.RandomState(seed)
        self.lr = np.random.RandomState(seed + 1)
        self.cplx = bool(self.r.rand() < 0.7)
        self.bases, self.systems, self.owner, self.changes, self.ev = [], [], [], [], []
        self.scale = 2.0 ** [0, 0, -40, 30][self.r.randint(4)]

    # ---------------------------------------------------------- numbers
    def lay(self, a):
        """The same array with another layout in memory."""
        k = self.lr.randint(5)
        return np.asfortranarray(a) if k == 1 else a[::-1].copy()[::-1] if k == 2 else np.repeat(a, 2, axis=-1)[..., ::2] if k == 3 and a.ndim < 4 else a

    def mat(self, n, m, hi=2, dens=0.6):
        r = self.r
        a = (r.randint(-hi, hi + 1, size=(n, m)) * (r.rand(n, m) < dens)).astype(float)
        return a + 1j * (r.randint(-hi, hi + 1, size=(n, m)) * (r.rand(n, m) < dens)) if self.cplx else a

    def herm(self, n):
        a = self.mat(n, n, 1)
        return a + a.conj().T

    def coeff(self, l, m):
        """Columns with one or two nonzero entries."""
        r = self.r
        C = np.zeros((l, m), dtype=complex if self.cplx else float)
        ph = [1, -1, 1j, -1j] if self.cplx else [1, -1]
        rows = r.permutation(l)
        for q in range(m):
            C[rows[q % l], q] = ph[r.randint(len(ph))]
            if r.rand() < 0.6:
                C[r.randint(l), q] += ph[r.randint(len(ph))]
        return C

    def pick_C(self, l, lo, bi, dl):
        m = max(lo, 1, l + dl * int(self.r.randint(1, max(2, l // 3))))
        m = min(m, self.prof["lcap"])
        C = self.coeff(l, max(m, lo))
        Ct = self.coeff(C.shape[1], l) if bi else C.conj().T
        return self.lay(C), self.lay(Ct)

    # ------------------------------------------------------ observation
    def four(self, u, scale):
        """Shape, some elements, signed sums of all elements."""
        if u is None:
            return {"sh": [], "ix": [], "re": [], "im": [], "w": [], "wr": [], "wi": []}
        try:
            u = np.asarray(u)
            if u.ndim == 2:         # compact storage: what it stands for
                l = len(u)
                sh = [l] * 4 if u.shape == (l, l) else list(u.shape)
                at = lambda x: u[x[0], x[1]] if x[0] == x[2] and x[1] == x[3] else 0.0
                ws = lambda w: (w[0] * w[2]) @ u @ (w[1] * w[3])
            else:
                l, sh = u.shape[0], list(u.shape)
                at = lambda x: u[tuple(x)]
                ws = lambda w: w[0] @ (((u @ w[3]) @ w[2]) @ w[1])
            if sh != [l] * 4:
                return {"sh": sh, "ix": [], "re": [], "im": [], "w": [], "wr": [], "wi": []}
            r = self.r
            ix = []
            for _ in range(self.prof.get("samples", 40)):
                x = [[0, l - 1, r.randint(l), r.randint(l), r.randint(l)][r.randint(5)] for _ in range(4)]
                k = r.randint(6)
                x = [x[0], x[1], x[0], x[1]] if k == 0 else [x[0], x[1], x[1], x[0]] if k == 1 else [x[0], x[0], x[2], x[2]] if k == 2 else x
                ix.append([int(y) for y in x])
            v = np.array([at(x) for x in ix]).astype(complex) * scale
            W = [[r.randint(0, 2, size=l) * 2 - 1 for _ in range(4)] for _ in range(3)]
            t = np.array([ws(w) for w in W]).astype(complex) * scale
            return {"sh": sh, "ix": ix, "re": ints(v.real), "im": ints(v.imag), "w": [[[int(y) for y in x] for x in w] for w in W],
                    "wr": ints(t.real), "wi": ints(t.imag)}
        except Exception:
            return {"sh": [1], "ix": [], "re": [], "im": [], "w": [], "wr": [], "wi": []}

    def basis(self, b):
        o = {f: enc(getattr(b, a, None), SCALE.get(f, 1) / (self.scale if f in ("h", "dip") else 1)) for f, a in ATTR.items()}
        o.update(l=int(b.l), spin=bool(b.includes_spin), anti=bool(b.anti_symmetrized_u), u=self.four(b.u, 1 / self.scale),
                 s2tb=self.four(getattr(b, "spin_2_tb", None), 4))
        return o

    def system(self, s, own):
        sl = lambda x: [x.start, x.stop]
        same = all(np.shape(getattr(s, a)) == np.shape(getattr(self.bases[own], a)) and np.array_equal(getattr(s, a), getattr(self.bases[own], a))
                   for a in ("h", "s", "u"))
        return {"n": int(s.n), "l": int(s.l), "m": int(s.m), "o": sl(s.o), "v": sl(s.v), "view": bool(same)}

    def do(self, e, f, after=None):
        try:
            v = f()
            if after:
                after(v)
            e["out"] = "ok"
        except Exception as x:
            e["out"] = "%s: %s" % (type(x).__name__, str(x)[:200])
        try:
            e["B"] = [self.basis(b) for b in self.bases]
            e["S"] = [self.system(s, o) for s, o in zip(self.systems, self.owner)]
        except Exception as x:
            e["out"], e["B"], e["S"] = "observation: %r" % x, [], []
        self.ev.append(e)
        return e["out"] == "ok"

    # ---------------------------------------------------------- requests
    def new(self):
        r, p = self.r, self.prof
        l, dim, g = int(r.randint(p["lmin"], p["lmax"] + 1)), int(r.randint(1, 3)), 3
        dvr = p.get("kind") == "dvr"
        if dvr:
            dim = 1
        h, s = self.herm(l), np.eye(l)
        if not dvr and r.rand() < 0.5:
            s = s * 2
            k = r.permutation(l)
            for a, c in zip(k[::2], k[1::2]):
                s[a, c] = s[c, a] = 1
        dip = np.array([self.herm(l) for _ in range(dim)])
        spf = self.mat(l, g ** dim).reshape((l,) + (g,) * dim)
        bra = self.mat(l, g ** dim).reshape(spf.shape) if r.rand() < 0.4 else None
        if dvr:
            k = np.round(r.randint(-3, 4, size=(l, l))).astype(float)
            k = k + k.T
            b = self.qs.ODSincDVR(l, 5.0, u_repr="2d" if r.rand() < 0.6 else "4d")
            u = k
            if b.u_repr == "4d":
                u = np.zeros((l,) * 4)
                i = np.arange(l)
                u[i[:, None], i[None, :], i[:, None], i[None, :]] = k
            P = [(np.diag([float(j == a) for j in range(l)]), np.diag(k[a])) for a in range(l)]
        else:
            b = self.qs.BasisSet(l, dim)
            P = [(X, X) for X in (self.herm(l), self.herm(l))]
            if r.rand() < 0.5:
                X, Y = self.herm(l), self.herm(l)
                P = [(X, Y), (Y, X)]
            u = sum(np.einsum("pr,qs->pqrs", X, Y) for X, Y in P)
        b.h, b.s, b.u, b.dipole_moment = self.lay(h * self.scale), self.lay(s), self.lay(u * self.scale), self.lay(dip * self.scale)
        b.spf = self.lay(spf)
        if bra is not None:
            b.bra_spf = bra
        e = dict(op="New", l=l, dim=dim, h=enc(h), s=enc(s), dip=enc(dip), spf=enc(spf), bra=enc(spf.conj() if bra is None else bra),
                 P=[[enc(X), enc(Y)] for X, Y in P])
        self.bases.append(b)
        self.changes.append(0)
        self.do(e, lambda: None)

    def free(self, i):
        return i not in self.owner

    def op_Change(self, h):
        i = (h["b"] - 1) % len(self.bases)
        b = self.bases[i]
        if not self.free(i) or self.changes[i] >= 3:
            return
        C, Ct = self.pick_C(b.l, 1, h["bi"], h["dl"])
        self.changes[i] += 1
        self.do(dict(op="Change", b=i + 1, C=enc(C), Ct=enc(Ct)), (lambda: b.change_basis(C, Ct)) if h["bi"] else (lambda: b.change_basis(C)))

    def op_SysChange(self, h):
        if not self.systems:
            return
        j = (h["s"] - 1) % len(self.systems)
        s, i = self.systems[j], self.owner[j]
        if self.changes[i] >= 3:
            return
        C, Ct = self.pick_C(s.l, s.n, h["bi"], h["dl"])
        self.changes[i] += 1
        self.do(dict(op="SysChange", s=j + 1, C=enc(C), Ct=enc(Ct)), (lambda: s.change_basis(C, Ct)) if h["bi"] else (lambda: s.change_basis(C)))

    def pair(self, tilt):
        if not tilt:
            return [1, 0], [0, 1]
        return [([0, 1], [1, 0]), ([1j, 0], [0, -1]), ([0, 1j], [1, 0])][self.r.randint(3)]

    def pargs(self, a, b):
        z = lambda x: [[int(np.real(y)), int(np.imag(y))] for y in x]
        return dict(A=z(a), Bp=z(b))

    def small(self, b):
        if not b.includes_spin and (np.linalg.matrix_rank(b.s) < b.l or np.linalg.cond(b.s) > 1e6):
            return False        # S^2 needs the inverse of the overlap
        return b.includes_spin or (b.l <= self.prof.get("ldouble", 17) and not b.anti_symmetrized_u)

    def op_Double(self, h):
        i = (h["b"] - 1) % len(self.bases)
        b = self.bases[i]
        if not self.free(i) or not self.small(b):
            return
        x, y = self.pair(h["tilt"])
        if np.ndim(b.u) == 2 and not h["anti"]:
            return          # compact storage without spin operators: the check of C18
        self.do(dict(op="Double", b=i + 1, anti=h["anti"], **self.pargs(x, y)),
                lambda: b.change_to_general_orbital_basis(a=x, b=y, anti_symmetrize=h["anti"]))

    def op_Anti(self, h):
        i = (h["b"] - 1) % len(self.bases)
        self.do(dict(op="Anti", b=i + 1), self.bases[i].anti_symmetrize_two_body_elements)

    def op_CopyB(self, h):
        i = (h["b"] - 1) % len(self.bases)
        self.do(dict(op="CopyB", b=i + 1), self.bases[i].copy_basis, lambda c: (self.bases.append(c), self.changes.append(self.changes[i])))

    def reg(self, s, i, new=False):
        if new:
            b = getattr(s, "_basis_set", None)
            b = b if b is not None else next(v for v in vars(s).values() if isinstance(v, self.qs.BasisSet))
            if any(b is x for x in self.bases):
                raise RuntimeError("basis set shared")
            self.bases.append(b)
            self.changes.append(self.changes[i])
            i = len(self.bases) - 1
        self.systems.append(s)
        self.owner.append(i)

    def op_NewSpas(self, h):
        i = (h["b"] - 1) % len(self.bases)
        b = self.bases[i]
        if not self.free(i) or b.includes_spin:
            return
        N = 2 * int(self.r.randint(0, b.l + 1))
        self.do(dict(op="NewSpas", b=i + 1, N=N), lambda: self.qs.SpatialOrbitalSystem(N, b), lambda s: self.reg(s, i))

    def op_NewGos(self, h):
        i = (h["b"] - 1) % len(self.bases)
        b = self.bases[i]
        if not self.free(i) or not self.small(b):
            return
        if np.ndim(b.u) == 2 and not h["anti"]:
            return
        x, y = self.pair(h["tilt"])
        m = b.l if b.includes_spin else 2 * b.l
        n = int(self.r.randint(0, m + 1))
        if self.r.rand() < 0.6:     # many particles, an odd number of them
            n = int(self.r.randint(m // 4, m // 2)) * 2 + 1
        self.do(dict(op="NewGos", b=i + 1, n=n, anti=h["anti"], **self.pargs(x, y)),
                lambda: self.qs.GeneralOrbitalSystem(n, b, a=x, b=y, anti_symmetrize=h["anti"]), lambda s: self.reg(s, i))

    def op_MkGos(self, h):
        for j, s in enumerate(self.systems):
            b = self.bases[self.owner[j]]
            if isinstance(s, self.qs.SpatialOrbitalSystem) and self.small(b) and not b.anti_symmetrized_u and not (np.ndim(b.u) == 2 and not h["anti"]):
                x, y = self.pair(h["tilt"])
                self.do(dict(op="MkGos", s=j + 1, anti=h["anti"], **self.pargs(x, y)),
                        lambda: s.construct_general_orbital_system(a=x, b=y, anti_symmetrize=h["anti"]), lambda g: self.reg(g, self.owner[j], True))
                return

    def op_CopyS(self, h):
        if not self.systems:
            return
        j = (h["s"] - 1) % len(self.systems)
        self.do(dict(op="CopyS", s=j + 1), self.systems[j].copy_system, lambda c: self.reg(c, self.owner[j], True))

    def full(self, h):
        if not self.systems:
            return None
        j = (h["s"] - 1) % len(self.systems)
        return j if np.ndim(self.systems[j].u) == 4 else None

    def op_Energy(self, h):
        j = self.full(h)
        if j is None:
            return
        e = dict(op="Energy", s=j + 1, ret=[BAD, BAD])
        self.do(e, self.systems[j].compute_reference_energy, lambda v: e.update(ret=[x[0] for x in (enc(v, 2 / self.scale)["re"], enc(v, 2 / self.scale)["im"])]))

    def op_Fock(self, h):
        j = self.full(h)
        if j is None:
            return
        s = self.systems[j]
        hh = s.h if np.iscomplexobj(s.h) or not np.iscomplexobj(s.u) else s.h.astype(complex)
        buf = np.full((s.l, s.l), 7.5 - 3j) if self.r.rand() < 0.4 else None
        e = dict(op="Fock", s=j + 1, ret=NOT)
        self.do(e, lambda: s.construct_fock_matrix(hh, s.u) if buf is None else s.construct_fock_matrix(hh, s.u, f=buf),
                lambda v: e.update(ret=enc(v if buf is None else buf, 1 / self.scale)))

    def density(self, i, target):
        b = self.bases[i]
        if b.spf is None:
            return
        rho = self.herm(b.l) if self.r.rand() < 0.5 else self.mat(b.l, b.l)
        e = dict(op="Density", b=i + 1, rho=enc(rho), ret=NOT)
        self.do(e, lambda: target.compute_particle_density(rho), lambda v: e.update(ret=enc(v)))

    def op_DensityB(self, h):
        i = (h["b"] - 1) % len(self.bases)
        self.density(i, self.bases[i])

    def op_Density(self, h):
        if self.systems:
            j = (h["s"] - 1) % len(self.systems)
            self.density(self.owner[j], self.systems[j])

    def op_GetT(self, h):
        i = (h["b"] - 1) % len(self.bases)
        b = self.bases[i]
        if self.changes[i] >= 3:
            return
        C, _ = self.pick_C(b.l, 1, False, int(self.r.randint(-1, 2)))
        e = dict(op="GetT", b=i + 1, C=enc(C), rh=NOT, ru=self.four(None, 1))
        self.do(e, lambda: (b.get_transformed_h(C), b.get_transformed_u(C)),
                lambda v: e.update(rh=enc(v[0], 1 / self.scale), ru=self.four(v[1], 1 / self.scale)))

    def op_Help(self, h):
        """Static helpers with elements of their own."""
        r, BS = self.r, self.qs.BasisSet
        l = int(r.randint(self.prof["lmin"], self.prof["lmax"] + 1))
        P = [(self.mat(l, l), self.mat(l, l)) for _ in range(2)]
        u = self.lay(sum(np.einsum("pr,qs->pqrs", X, Y) for X, Y in P))
        fn = ["x2", "x2t", "anti", "two", "s2"][r.randint(5)]
        C, Ct = self.pick_C(l, 1, True, int(r.randint(-1, 2)))
        if fn in ("two", "s2") and l > self.prof.get("ldouble", 17):
            fn = "x2t"
        k = u.copy()
        e = dict(op="Help", fn=fn, P=[[enc(X), enc(Y)] for X, Y in P], C=enc(C), Ct=enc(Ct), r=self.four(None, 1), pure=True)
        f = {"x2": lambda: BS.transform_two_body_elements(u, C, np), "x2t": lambda: BS.transform_two_body_elements(u, C, np, C_tilde=Ct),
             "anti": lambda: BS.anti_symmetrize_u(u), "two": lambda: BS.add_spin_two_body(u, np),
             "s2": lambda: BS.setup_spin_squared_operator(P[0][0], P[1][0], P[0][1], np.eye(l), np)[1]}[fn]
        self.do(e, f, lambda v: e.update(r=self.four(v, 1), pure=bool(np.array_equal(u, k))))

    def run(self, hist):
        self.new()
        for h in hist:
            if self.ev[-1]["out"] != "ok" or len(self.ev) > self.prof.get("maxev", 12):
                break
            getattr(self, "op_" + h["op"])(h)
        return {"id": self.tid, "ev": self.ev}


def main():
    job = json.load(open(sys.argv[1]))
    import quantum_systems as qs
    if not qs.__file__.startswith("/repo/"):
        sys.exit("wrong package " + qs.__file__)
    traces = []
    for h in job["histories"]:
        traces.append(World(qs, (job["seed"] * 7919 + h["salt"]) % 2 ** 31, h["id"], job["profile"]).run(h["ops"]))
    json.dump(traces, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
