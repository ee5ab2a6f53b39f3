"""Records molecular systems for spec/MoleculeTrace.tla, with independently requested integrals.

usage: moldrive.py JOB.json OUT.json
task: {"atoms": [[symbol, x, y, z], ...], "basis", "charge", "cart", "what": [...]}
"""
import contextlib
import io
import json
import sys
import warnings

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import pyscf  # noqa: E402
import pyscf.gto  # noqa: E402
import pyscf.scf  # noqa: E402
import quantum_systems as qs  # noqa: E402
from quantum_systems import construct_pyscf_system_ao, construct_pyscf_system_rhf  # noqa: E402

BAD = 2000000011
Z = {"h": 1, "he": 2, "li": 3, "be": 4, "b": 5, "c": 6, "n": 7, "o": 8, "f": 9}


def fix(x):
    x = complex(x)
    if abs(x.imag) > 1e-7 or not np.isfinite(x.real) or abs(x.real) > 2000:
        return BAD
    return int(round(x.real * 1e6))


def fixs(a):
    return [fix(x) for x in np.asarray(a).ravel()]


class Ref:
    """Integrals and Hartree-Fock solution asked from PySCF directly."""

    def __init__(self, t):
        self.t = t
        at = [(a[0], (a[1], a[2], a[3])) for a in t["atoms"]]
        kw = {"charge": t["charge"], "verbose": 0, "unit": "bohr"}
        if t.get("cart"):
            kw["cart"] = True
        m = self.mol = pyscf.gto.M(atom=at, basis=t["basis"], **kw)
        self.l = m.nao
        self.h = m.intor("int1e_kin") + m.intor("int1e_nuc")
        self.s = m.intor("int1e_ovlp")
        self.e = m.intor("int2e").reshape((self.l,) * 4)
        self.r = m.intor("int1e_r").reshape(3, self.l, self.l)
        z = np.array([Z[a[0].lower()] for a in t["atoms"]], float)
        x = np.array([a[1:] for a in t["atoms"]], float)
        self.enuc = sum(z[i] * z[j] / np.linalg.norm(x[i] - x[j]) for i in range(len(z)) for j in range(i))
        self.cen = z @ x / z.sum()
        self.nel = int(z.sum()) - t["charge"]
        hf = pyscf.scf.RHF(m)
        hf.verbose = 0
        hf.kernel()
        self.C, self.mo, self.etot, self.converged = hf.mo_coeff, hf.mo_energy, hf.e_tot, hf.converged
        gap = np.diff(np.sort(self.mo))
        self.simple = bool(len(gap) == 0 or gap.min() > 2e-3)


def align(ref, got):
    """Signs g with got[p,q] = g[p] g[q] ref[p,q] as far as determined by a list of matrices; 1 if not needed."""
    l = ref[0].shape[0]
    if all(np.allclose(a, b, atol=1e-4) for a, b in zip(ref, got)):
        return [1] * l
    w = sum(np.abs(a) for a in ref)
    g, seen = [1] * l, set()
    for st in range(l):
        if st in seen:
            continue
        seen.add(st)
        while True:
            c = [(w[p, q], p, q) for p in seen for q in range(l) if q not in seen and w[p, q] > 1e-3]
            if not c:
                break
            _, p, q = max(c)
            a = max(zip(ref, got), key=lambda ab: abs(ab[0][p, q]))
            g[q] = g[p] * (1 if np.real(a[0][p, q] * a[1][p, q]) >= 0 else -1)
            seen.add(q)
    return g


def text(t):
    return "; ".join("%s %.10f %.10f %.10f" % tuple(a) for a in t["atoms"])


def kwargs(t, rhf):
    kw = {"basis": t["basis"]}
    if t["charge"] or t.get("give_charge"):
        kw["charge"] = t["charge"]
    if t.get("cart"):
        kw["cart"] = True
    if t.get("give_np"):
        kw["np"] = np
    if rhf and t.get("say"):
        kw["verbose"] = True
    return kw


def elements(s):
    return {"h": fixs(s.h), "s": fixs(s.s), "u": fixs(s.u), "d": fixs(s.dipole_moment), "enuc": fix(s.nuclear_repulsion_energy), "nocc": int(s.n)}


def record(t):
    out = []
    R = Ref(t)
    who = "%s %s charge %d" % ("".join(a[0] for a in t["atoms"]), t["basis"], t["charge"])
    base = {"who": who, "err": "", "l": R.l, "n": R.nel // 2, "enuc0": fix(R.enuc)}
    ints = {"h0": fixs(R.h), "s0": fixs(R.s), "e0": fixs(R.e), "r0": fixs(R.r)}

    def event(op, f):
        e = dict(base, op=op)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                e.update(f())
        except Exception as x:
            e["err"] = "%s: %s: %s" % (op, type(x).__name__, str(x)[:120])
        out.append(e)

    def ao():
        s = construct_pyscf_system_ao(text(t), add_spin=False, **kwargs(t, False))
        return dict(ints, real=all(not np.iscomplexobj(x) or np.abs(np.imag(x)).max() == 0 for x in (s.h, s.u, s.s, s.dipole_moment)), **elements(s))

    def aomo():
        s = construct_pyscf_system_ao(text(t), add_spin=False, **kwargs(t, False))
        s.change_basis(R.C)
        return dict(ints, C=fixs(R.C), sg=[1] * R.l, cen=[0, 0, 0], tol=300, **elements(s))

    def mo():
        s = construct_pyscf_system_rhf(text(t), add_spin=False, **kwargs(t, True))
        g = align([R.C.T @ R.h @ R.C] + [R.C.T @ x @ R.C - R.cen[k] * (R.C.T @ R.s @ R.C) for k, x in enumerate(R.r)], [s.h] + list(s.dipole_moment))
        return dict(ints, C=fixs(R.C), sg=g, cen=fixs(R.cen), tol=300, **elements(s))

    def hf(full):
        def f():
            s = construct_pyscf_system_rhf(text(t), add_spin=False, **kwargs(t, True))
            r = elements(s)
            if not full:
                r["u"] = []
            return dict(r, f=fixs(s.construct_fock_matrix(s.h, s.u)), mo=fixs(R.mo), etot=fix(R.etot), eref=fix(s.compute_reference_energy()), tol=120)
        return f

    def gos(make, anti, later):
        def f():
            a = make(text(t), add_spin=False, **kwargs(t, make is construct_pyscf_system_rhf))
            if later:
                b = make(text(t), add_spin=False, **kwargs(t, make is construct_pyscf_system_rhf)).construct_general_orbital_system(anti_symmetrize=anti)
            elif anti and t.get("bare"):
                b = make(text(t), **kwargs(t, make is construct_pyscf_system_rhf))
            else:
                b = make(text(t), add_spin=True, anti_symmetrize=anti, **kwargs(t, make is construct_pyscf_system_rhf))
            g = align([a.h] + list(a.dipole_moment), [b.h[::2, ::2]] + [x[::2, ::2] for x in b.dipole_moment])
            r = elements(a)
            q = elements(b)
            isanti = anti
            ea = a.compute_reference_energy()
            eb = b.compute_reference_energy() if anti else ea
            return dict(r, sg=g, h2=q["h"], s2=q["s"], u2=q["u"], d2=q["d"], nocc2=q["nocc"], enuc2=q["enuc"], anti=anti, isanti=isanti, eref=fix(ea), eref2=fix(eb))
        return f

    W = t["what"]
    if "ao" in W:
        event("ao", ao)
    if "aomo" in W:
        event("mo", aomo)
    if "mo" in W and R.simple and R.converged:
        event("mo", mo)
    if ("hf" in W or "hf0" in W) and R.converged:
        event("hf", hf("hf" in W))
    if "gosao" in W:
        event("gos", gos(construct_pyscf_system_ao, t["anti"], t["later"]))
    if "goshf" in W and (R.simple or t["later"]) and R.converged:
        event("gos", gos(construct_pyscf_system_rhf, t["anti"], t["later"]))
    return out


job = json.load(open(sys.argv[1]))
json.dump([{"id": t["id"], "ev": [e for k in t["tasks"] for e in record(k)]} for t in job["traces"]], open(sys.argv[2], "w"))
