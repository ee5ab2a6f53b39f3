"""Builds, writes to and uses systems as told by histories of spec/FactoryMC.tla; records contents.

usage: factdrive.py JOB.json OUT.json      JOB: {"traces": [{"id":.., "ops": [...], "salt": n}], "recipes": [...]}

Every recipe is first built in a forked process of its own (the reference); every history runs in a
forked process, too, so that nothing but the history itself can influence what is built.
"""
import json
import os
import pickle
import sys
import traceback
import warnings

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import quantum_systems as qs  # noqa: E402
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO  # noqa: E402
from quantum_systems.quantum_dots.two_dim.two_dim_ho import TwoDimHarmonicOscB  # noqa: E402
from quantum_systems.quantum_dots.two_dim import two_dim_helper as helper  # noqa: E402
from quantum_systems.time_evolution_operators import LaserField, AdiabaticSwitching  # noqa: E402

ATTR = ["h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb", "grid", "nuclear_repulsion_energy",
        "l", "dim", "includes_spin", "anti_symmetrized_u", "n", "m", "o", "v", "potential", "value", "sigma_x", "sigma_y", "sigma_z", "a", "b"]
P = qs.ODQD
POT = {"ho": lambda: P.HOPotential(1.0), "ho2": lambda: P.HOPotential(0.5), "dw": lambda: P.DWPotential(1.0, 2.0), "sm": lambda: P.DWPotentialSmooth(3),
       "sy": lambda: P.SymmetricDWPotential(1.0, 0.5, 0.2), "as": lambda: P.AsymmetricDWPotential(1.0, 0.2, 0.1),
       "ga": lambda: P.GaussianPotential(2.0, 0.3, 1.5, np), "at": lambda: P.AtomicPotential(1)}


class Value:
    """A bare array handed out by a function."""

    def __init__(self, value):
        self.value = value


def mk(f, pot=None, **kw):
    return lambda A: f(potential=A(pot), **kw) if pot else f(**kw)


def sp(n, base):
    return lambda A: qs.SpatialOrbitalSystem(n, R[base](A))


def go(n, base, **kw):
    return lambda A: qs.GeneralOrbitalSystem(n, R[base](A), **{k: (A(v) if isinstance(v, str) else v) for k, v in kw.items()})


def mol(f, **kw):
    return lambda A: getattr(qs, f)(**kw)


def raised(A):
    b = qs.BasisSet(2, 1)
    b.h, b.s, b.u = np.diag([1.0, 2.0]), np.eye(2), np.arange(16.0).reshape(2, 2, 2, 2)
    return b


R = {
    "qd_ho": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=31, pot="ho"), "qd_ho_fine": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=41, pot="ho"),
    "qd_ho2": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=31, pot="ho2"), "qd_dw": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=31, pot="dw"),
    "qd_alpha": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=31, alpha=0.5, pot="ho"), "qd_a": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=31, a=1.0, pot="ho"),
    "qd_beta": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=31, beta=0.3, pot="ho"), "qd_len": mk(qs.ODQD, l=3, grid_length=5, num_grid_points=31, pot="ho"),
    "qd_def": mk(qs.ODQD, l=3, grid_length=6, num_grid_points=31), "qd_sy": mk(qs.ODQD, l=2, grid_length=6, num_grid_points=31, pot="sy"),
    "qd_ga": mk(qs.ODQD, l=2, grid_length=6, num_grid_points=31, pot="ga"), "qd_at": mk(qs.ODQD, l=2, grid_length=6, num_grid_points=31, pot="at"),
    "odho": mk(ODHO, l=3, grid_length=6, num_grid_points=31), "odho_w": mk(ODHO, l=3, grid_length=6, num_grid_points=31, omega=1.0),
    "odho_a": mk(ODHO, l=3, grid_length=6, num_grid_points=31, a=1.0),
    "dvr2": mk(qs.ODSincDVR, l=3, grid_length=4), "dvr4": mk(qs.ODSincDVR, l=3, grid_length=4, u_repr="4d"), "dvr_ga": mk(qs.ODSincDVR, l=4, grid_length=4, pot="ga"),
    "dvr_alpha": mk(qs.ODSincDVR, l=3, grid_length=4, alpha=2.0), "dvr_dw": mk(qs.ODSincDVR, l=3, grid_length=4, u_repr="4d", pot="dw"),
    "td": mk(qs.TwoDimensionalHarmonicOscillator, l=3, radius_length=3, num_grid_points=5),
    "td_w2": mk(qs.TwoDimensionalHarmonicOscillator, l=3, radius_length=3, num_grid_points=5, omega=0.2501),
    "td_def2": mk(qs.TwoDimensionalHarmonicOscillator, l=3, radius_length=3, num_grid_points=5, omega=1.0003),
    "dw_b2": mk(qs.TwoDimensionalDoubleWell, l=3, radius_length=3, num_grid_points=5, barrier_strength=1.003, axis=1),
    "b_neg": mk(TwoDimHarmonicOscB, l=3, radius_length=3, num_grid_points=5, omega_c=-1.0),
    "b_neg6": mk(TwoDimHarmonicOscB, l=6, radius_length=3, num_grid_points=5, omega_c=-1.002),
    "b_6": mk(TwoDimHarmonicOscB, l=6, radius_length=3, num_grid_points=5, omega_c=1.0),
    "dvr_len": mk(qs.ODSincDVR, l=3, grid_length=5), "dvr_len4": mk(qs.ODSincDVR, l=3, grid_length=4.01, u_repr="4d"),
    "odho_len": mk(ODHO, l=3, grid_length=6.01, num_grid_points=31),
    "td6": mk(qs.TwoDimensionalHarmonicOscillator, l=6, radius_length=3, num_grid_points=5),
    "td_w": mk(qs.TwoDimensionalHarmonicOscillator, l=3, radius_length=3, num_grid_points=5, omega=0.25),
    "td_m": mk(qs.TwoDimensionalHarmonicOscillator, l=3, radius_length=3, num_grid_points=5, mass=4.0),
    "td_g": mk(qs.TwoDimensionalHarmonicOscillator, l=3, radius_length=2, num_grid_points=7),
    "dw0": mk(qs.TwoDimensionalDoubleWell, l=3, radius_length=3, num_grid_points=5, barrier_strength=2, axis=0),
    "dw1": mk(qs.TwoDimensionalDoubleWell, l=3, radius_length=3, num_grid_points=5, barrier_strength=2, axis=1),
    "dw_b": mk(qs.TwoDimensionalDoubleWell, l=3, radius_length=3, num_grid_points=5, barrier_strength=1, axis=1),
    "b1": mk(TwoDimHarmonicOscB, l=3, radius_length=3, num_grid_points=5, omega_c=1.0), "b_strong": mk(TwoDimHarmonicOscB, l=3, radius_length=3, num_grid_points=5, omega_c=4.0),
    "b_0": mk(TwoDimHarmonicOscB, l=3, radius_length=3, num_grid_points=5, omega_c=0),
    "plain": raised,
    "s_qd": sp(2, "qd_dw"), "s_td": sp(2, "td"), "s_dvr": sp(2, "dvr4"), "s_plain": sp(2, "plain"),
    "g_qd": go(2, "qd_ho"), "g_td": go(2, "td_w"), "g_td_raw": go(2, "td_w", anti_symmetrize=False), "g_dvr": go(3, "dvr2"), "g_plain": go(2, "plain"),
    "g_plain_raw": go(2, "plain", anti_symmetrize=False), "g_tilt": go(2, "plain", a="up", b="down"), "g_dvr_raw": go(2, "dvr2", anti_symmetrize=False),
    "mol_rhf": mol("construct_pyscf_system_rhf", molecule="h 0 0 0; h 0 0 1.4", basis="sto-3g"),
    "mol_far": mol("construct_pyscf_system_rhf", molecule="h 0 0 0; h 0 0 2.0", basis="sto-3g", add_spin=False),
    "mol_ao": mol("construct_pyscf_system_ao", molecule="h 0 0 0; h 0 0 1.4", basis="sto-3g"),
    "mol_ao2": mol("construct_pyscf_system_ao", molecule="h 0 0 0; h 0 0 2.0", basis="sto-3g"),
    "mol_ang": mol("construct_pyscf_system_ao", molecule="h 0 0 0; h 0 0 1.401", basis="sto-3g", add_spin=False),
    "mol_631": mol("construct_pyscf_system_rhf", molecule="he 0 0 0", basis="6-31g", anti_symmetrize=False),
    "u3": lambda A: Value(helper.get_coulomb_elements(3)), "u6": lambda A: Value(helper.get_coulomb_elements(6)),
    "h6": lambda A: Value(helper.get_one_body_elements(6)),
}


# recipes whose potential is made by the library itself
OWNPOT = {"qd_def", "dvr2", "dvr4", "dvr_alpha", "dvr_len", "dvr_len4", "s_dvr", "g_dvr", "g_dvr_raw"}


class Args:
    """Arguments handed to constructors; shared ones live as long as the history."""

    def __init__(self):
        self.pool, self.used = {}, []

    def __call__(self, key, share=None):
        share = self.share if share is None else share
        if share and key in self.pool:
            x = self.pool[key]
        else:
            x = POT[key]() if key in POT else {"up": lambda: [0.6, 0.8j], "down": lambda: np.array([0.8j, 0.6])}[key]()
            self.pool[key] = x
        self.used.append((x, self.peek(x)))
        return x

    @staticmethod
    def peek(x):
        if isinstance(x, (list, np.ndarray)):
            return repr([complex(y) for y in x])
        return repr(sorted((k, repr(v) if not callable(v) else "f") for k, v in vars(x).items() if not type(v).__name__ == "module"))


STORE = {}
NEXT = [1]


def ident(a):
    """A number for the contents; equal up to rounding errors means equal numbers."""
    if a is None:
        return 0
    if isinstance(a, slice):
        a = [a.start or 0, -1 if a.stop is None else a.stop]
    if hasattr(a, "__dict__") and callable(a):        # a potential: its values
        try:
            a = np.asarray(a(np.linspace(-2, 2, 9)))
        except Exception:
            return -1
    if isinstance(a, (tuple, list)) and len(a) and not np.isscalar(a[0]):
        a = np.concatenate([np.ravel(x) for x in a])
    try:
        a = np.asarray(a).astype(complex)
    except Exception:
        return -1
    lst = STORE.setdefault(a.shape, [])
    for x, k in lst:
        if np.allclose(x, a, rtol=1e-9, atol=1e-10, equal_nan=True):
            return k
    lst.append((a.copy(), NEXT[0]))
    NEXT[0] += 1
    return NEXT[0] - 1


def look(x, raw=False):
    out = []
    for f in ATTR:
        try:
            v = getattr(x, f, None)
            if v is None and f in ("includes_spin", "anti_symmetrized_u", "dim"):
                v = getattr(getattr(x, "_basis_set", None), f, None)
        except Exception:
            v = None
        out.append(v)
    return out if raw else [ident(v) for v in out]


def fork(f):
    """Result of f() computed in a forked process; ("died", ...) if that did not work."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = ("ok", f())
        except BaseException as e:
            res = ("err", "%s: %s %s" % (type(e).__name__, str(e)[:200], traceback.format_exc()[-600:]))
        with os.fdopen(w, "wb") as fh:
            pickle.dump(res, fh)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return ("died", "process died")


def reference(name):
    A = Args()
    A.share = False
    x = R[name](A)
    # potentials do not pickle in general: keep their values
    vals = look(x, raw=True)
    return [None if v is None else np.asarray(v(np.linspace(-2, 2, 9))) if callable(v) and hasattr(v, "__dict__") else v for v in vals]


def basis(x):
    return getattr(x, "_basis_set", x)


def rand_c(rng, l):
    return np.linalg.qr(rng.randn(l, l) + 1j * rng.randn(l, l))[0]


def write(x, rng, own):
    b = basis(x)
    done = 0
    p = getattr(b, "potential", None)
    if own and p is not None and rng.rand() < 0.7:
        p.omega = 3.5
    for f in rng.permutation(ATTR[:12] + ["value"] + ATTR[-5:] * (2 if hasattr(b, "a") else 1)):
        a = getattr(b, f, None)
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            a[tuple(rng.randint(s) for s in a.shape)] += 1
            done += 1
            if done == 4:
                break
    return done


def use(x, u, rng):
    b = basis(x)
    if isinstance(x, Value):
        x.value *= 2
    elif u == "change":
        if getattr(b, "s", None) is not None:
            x.change_basis(rand_c(rng, b.l))
    elif u == "double":
        if x is b and not b.includes_spin:
            b.change_to_general_orbital_basis()
    elif u == "tilt":
        if x is b and not b.includes_spin:
            b.change_to_general_orbital_basis(a=[0.6, 0.8], b=[-0.8, 0.6], anti_symmetrize=False)
    elif u == "anti":
        b.anti_symmetrize_two_body_elements()
    elif u == "gos":
        if hasattr(x, "construct_general_orbital_system"):
            y = x.construct_general_orbital_system()
            y.h[0, 0] += 1
        else:
            b.copy_basis().h[0, 0] += 1
    elif u == "teo":
        if x is not b:
            x.set_time_evolution_operator(LaserField(lambda t: np.sin(t)) if b.dipole_moment is not None else AdiabaticSwitching(lambda t: t))
            x.h_t(0.5)
            x.u_t(0.5)
    elif u == "cast":
        b.cast_to_complex()
    elif u == "energy":
        if x is not b and np.ndim(b.u) == 4:
            x.compute_reference_energy()
            x.construct_fock_matrix(x.h, x.u)
    elif u == "density":
        if b.spf is not None:
            b.compute_particle_density(np.eye(b.l))
    elif u == "set":
        b.h = np.zeros((b.l, b.l))
        b.nuclear_repulsion_energy = 7


def history(tr):
    rng = np.random.RandomState(tr["salt"])
    A, objs, own, ev = Args(), [], [], []
    for o in tr["ops"]:
        e = {"op": o["op"], "r": o["r"], "i": o["i"], "u": o["u"], "out": "ok", "exc": "", "ref": []}
        A.share, A.used = o["sh"], []
        try:
            if o["op"] == "Build":
                e["ref"] = REF[o["r"]]
                objs.append(R[o["r"]](A))
                own.append(o["r"] in OWNPOT)
            elif o["op"] == "Write":
                write(objs[o["i"] - 1], rng, own[o["i"] - 1])
            else:
                use(objs[o["i"] - 1], o["u"], rng)
        except Exception as x:
            e["out"], e["exc"] = "err", "%s: %s" % (type(x).__name__, str(x)[:120])
        e["all"] = [look(x) for x in objs]
        e["args0"] = [a for _, a in A.used]
        e["args1"] = [A.peek(x) for x, _ in A.used]
        ev.append(e)
        if o["op"] == "Build" and e["out"] == "err":
            break
    return ev


REF = {}


def main():
    job = json.load(open(sys.argv[1]))
    need = sorted({o["r"] for t in job["traces"] for o in t["ops"] if o["op"] == "Build"})
    for n in need:
        st, v = fork(lambda: reference(n))
        REF[n] = [ident(x) for x in v] if st == "ok" else [-9]
    out = []
    for t in job["traces"]:
        st, v = fork(lambda: history(t))
        if st != "ok":
            v = [{"op": "Build", "r": "history", "i": 0, "u": "", "out": "err", "exc": v[:300], "ref": [], "all": [], "args0": [], "args1": []}]
        out.append({"id": t["id"], "names": ATTR, "ev": v})
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    if sys.argv[1:] == ["--recipes"]:
        print(json.dumps(sorted(R)))
    else:
        main()
