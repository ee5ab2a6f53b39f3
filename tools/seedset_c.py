"""Planted bugs: arrays handed out or lent, pure helpers, views, construction, and changes the checks once missed."""
B = "quantum_systems/basis_set.py"
S = "quantum_systems/system.py"
G = "quantum_systems/general_orbital_system.py"
T = "quantum_systems/time_evolution_operators/operator.py"
SH = "quantum_systems/system_helper.py"
D = "quantum_systems/quantum_dots/two_dim/two_dim_helper.py"
DS = "quantum_systems/quantum_dots/two_dim/two_dim_ho.py"
OD = "quantum_systems/quantum_dots/one_dim/one_dim_qd.py"
OP = "quantum_systems/quantum_dots/one_dim/one_dim_potentials.py"
DV = "quantum_systems/sinc_dvr/one_dim/sinc_dvr.py"
SA = "quantum_systems/sampler.py"
RB = "quantum_systems/random_basis.py"

SYSTEM = '''
import quantum_systems as qs
def basis(l=3, dim=1, seed=0):
    np.random.seed(seed)
    b = qs.RandomBasisSet(l, dim)
    b.s = np.eye(l, dtype=complex)
    b.spf = np.random.rand(l, *[4] * dim) + 1j * np.random.rand(l, *[4] * dim)
    return b
'''

seed("s50_fock_reused", "C26", [(G, "        if f is None:\n            f = np.zeros_like(h)\n", "        if f is None:\n            # Avoid allocating a new matrix in every iteration\n            if getattr(self, \"_f\", None) is None or (\n                (self._f.shape, self._f.dtype) != (h.shape, h.dtype)\n            ):\n                self._f = np.zeros_like(h)\n            f = self._f\n")], SYSTEM + '''
s = qs.GeneralOrbitalSystem(2, basis())
f = s.construct_fock_matrix(s.h, s.u); k = f.copy()
s.construct_fock_matrix(2 * s.h, s.u)
assert np.array_equal(f, k)
''', "two Fock matrices of the same system, both kept", "the earlier one is overwritten")

seed("s51_h_in_place", "C26", [(B, "        self.h = self.transform_one_body_elements(\n            self.h, C, np=self.np, C_tilde=C_tilde\n        )\n", "        h = self.transform_one_body_elements(\n            self.h, C, np=self.np, C_tilde=C_tilde\n        )\n\n        if h.shape == self.h.shape and h.dtype == self.h.dtype:\n            # No need for more memory\n            self.h[:] = h\n        else:\n            self.h = h\n")], SYSTEM + '''
b = basis(); h = b.h; k = h.copy()
b.change_basis(np.array([[0, 1j, 0], [1, 0, 0], [0, 0, 1]]))
assert np.array_equal(h, k)
''', "the Hamiltonian kept from before a basis change to as many functions", "it is overwritten with the new one")

seed("s52_lent_coefficients", "C26", [(B, "        self.bra_spf = self.transform_bra_spf(self.bra_spf, C_tilde, self.np)\n\n        self.spf = self.transform_spf(self.spf, C, self.np)\n", "        bra_spf, self._pending = self._bra_spf, None\n\n        if bra_spf is not None:\n            self.bra_spf = self.transform_bra_spf(bra_spf, C_tilde, self.np)\n        else:\n            # Transform the bra functions if somebody needs them\n            self._pending = (self.bra_spf, C_tilde)\n            self._bra_spf = None\n\n        self.spf = self.transform_spf(self.spf, C, self.np)\n"),
 (B, "        if self._bra_spf is None and self._spf is not None:\n", "        if self._bra_spf is None and getattr(self, \"_pending\", None):\n            self._bra_spf = self.transform_bra_spf(*self._pending, self.np)\n            self._pending = None\n\n        if self._bra_spf is None and self._spf is not None:\n")], SYSTEM + '''
b, c = basis(), basis()
C = np.array([[0, 1j, 0], [1, 1, 0], [0, 0, 1]]); Ct = np.linalg.inv(C)
b.change_basis(C, Ct); c.change_basis(C.copy(), Ct.copy())
Ct *= 2
assert np.allclose(b.bra_spf, c.bra_spf)
''', "bra functions not read so far, a basis change, and the coefficients reused before the first read", "the bra functions are made from the reused coefficients")

seed("s53_density_in_place", "C26", [(SH, "    rho = np.zeros(\n        ket_spf.shape[1:], dtype=np.result_type(rho_qp, ket_spf.dtype)\n    )\n", "    key = (ket_spf.shape[1:], np.result_type(rho_qp, ket_spf.dtype))\n    rho = _BUFFER.setdefault(key, np.zeros(key[0], dtype=key[1]))\n    rho[...] = 0\n"), (SH, "import numba\n", "import numba\n\n_BUFFER = {}\n")], SYSTEM + '''
b = basis(); r = b.compute_particle_density(np.eye(3) * 1j); k = r.copy()
basis(2, 1, 5).compute_particle_density(np.ones((2, 2)) * 1j)
assert np.array_equal(r, k)
''', "two densities on grids of the same size, both kept", "the earlier one is overwritten")

seed("s54_dvr_anti_ctilde", "C27", [(DV, "                    \"br,as,qb,pa,ab->pqrs\",\n                    C,\n                    C,\n                    C_tilde,\n                    C_tilde,\n", "                    \"br,as,qb,pa,ab->pqrs\",\n                    C,\n                    C,\n                    C.conj().T,\n                    C.conj().T,\n")], '''
import quantum_systems as qs
b = qs.ODSincDVR(3, 4)
C, Ct = np.random.rand(3, 2), np.random.rand(2, 3)
u = b.transform_two_body_elements(b.u, C, np, anti_symmetrize=True, C_tilde=Ct)
assert np.allclose(u, -u.transpose(0, 1, 3, 2)) and np.allclose(u, -u.transpose(1, 0, 2, 3))
''', "compact storage, biorthogonal coefficients and anti-symmetrisation on the fly", "the exchange part uses other bra coefficients")

seed("s55_pauli_phase", "C27", [(B, "        for i, s in enumerate([a, b]):\n            for j, t in enumerate([a, b]):\n", "        # Only relative phases matter\n        b = b * np.exp(-1j * np.angle(np.sum(b)))\n\n        for i, s in enumerate([a, b]):\n            for j, t in enumerate([a, b]):\n")], '''
from quantum_systems import BasisSet
a, b = np.array([[1], [0]]), np.array([[0], [1j]])
sx = BasisSet.setup_pauli_matrices(a, b, np)[0]
assert np.allclose(sx, [[0, 1j], [-1j, 0]])
''', "a spin-down function with a complex phase", "Pauli matrices of another pair")

seed("s56_exchange_in_place", "C27", [(RB, "        return 0.5 * (u + u.transpose(1, 0, 3, 2))", "        u += u.transpose(1, 0, 3, 2)\n        u *= 0.5\n\n        return u")], '''
from quantum_systems import RandomBasisSet as R
u = np.random.rand(2, 2, 2, 2); k = u.copy()
v = R.make_two_body_symmetry(u)
assert np.array_equal(u, k) and np.allclose(v, (k + k.transpose(1, 0, 3, 2)) / 2)
''', "the argument is used again afterwards", "it is overwritten")

seed("s57_overlap_remembered", "C24", [(S, "        return self._basis_set.s\n", "        if getattr(self, \"_s\", None) is None or len(self._s) != self.l:\n            self._s = self._basis_set.s\n\n        return self._s\n")], SYSTEM + '''
s = qs.GeneralOrbitalSystem(2, basis()); s.s
C = np.eye(6, dtype=complex); C[0, 0] = 2
s.change_basis(C)
assert np.isclose(s.s[0, 0], 4)
''', "the overlap read before and after a basis change to as many functions", "the system hands out the old overlap")

seed("s58_enuc_snapshot", "C24", [(S, "        self._time_evolution_operator = None\n", "        self._time_evolution_operator = None\n        self._energy_shift = basis_set.nuclear_repulsion_energy\n"), (S, "        return self._basis_set.nuclear_repulsion_energy\n", "        return self._energy_shift\n")], SYSTEM + '''
b = basis(); s = qs.SpatialOrbitalSystem(2, b)
b.nuclear_repulsion_energy = 17
assert s.nuclear_repulsion_energy == 17
''', "a repulsion energy assigned after the system was made", "the system reports the old one")

seed("s59_sinc_per_size", "C25", [(DV, "        return 1 / np.sqrt(self.dx) * np.sinc((x - x[:, None]) / self.dx)", "        if self.l not in _SINC:\n            _SINC[self.l] = np.sinc((x - x[:, None]) / self.dx) / np.sqrt(self.dx)\n\n        return _SINC[self.l].copy()"), (DV, "class ODSincDVR(BasisSet):\n", "_SINC = {}\n\n\nclass ODSincDVR(BasisSet):\n")], '''
import quantum_systems as qs
a = qs.ODSincDVR(5, 4); b = qs.ODSincDVR(5, 8)
assert np.allclose(a.spf[0, 0], b.spf[0, 0] * np.sqrt(2))
''', "two bases of the same size on different intervals in one process", "the second has the functions of the first")

seed("s60_frames_kept", "C25", [(D, "def construct_dataframe(n_array, m_array, omega_c=0, omega=1):\n", "_FRAMES = {}\n\n\ndef construct_dataframe(n_array, m_array, omega_c=0, omega=1):\n    key = (len(n_array), len(m_array), omega_c ** 2, omega)\n\n    if key not in _FRAMES:\n        _FRAMES[key] = _construct_dataframe(n_array, m_array, omega_c, omega)\n\n    return _FRAMES[key]\n\n\ndef _construct_dataframe(n_array, m_array, omega_c=0, omega=1):\n")], '''
from quantum_systems.quantum_dots.two_dim.two_dim_ho import TwoDimHarmonicOscB as H
a = H(3, 3, 4, omega=1.0, omega_c=1.0); b = H(3, 3, 4, omega=1.0, omega_c=-1.0)
assert a.df["m"][1] == -b.df["m"][1]
''', "two fields of opposite sign in one process", "the second has the states of the first")

seed("s61_grid_shared", "C25", [(OD, "class ODHO(BasisSet):\n", "import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef _make_grid(length, num):\n    return np.linspace(-length, length, num)\n\n\nclass ODHO(BasisSet):\n"), (OD, "        self.grid = np.linspace(\n            -self.grid_length, self.grid_length, self.num_grid_points\n        )\n        self.beta = beta\n\n        if potential", "        self.grid = _make_grid(self.grid_length, self.num_grid_points)\n        self.beta = beta\n\n        if potential")], '''
import quantum_systems as qs
a = qs.ODQD(2, 5, 21); a.grid += 1
b = qs.ODQD(2, 5, 21)
assert b.grid[0] == -5
''', "the grid of one dot written to, then another dot on the same interval", "the second dot is displaced")

seed("s62_identity_skipped", "C02", [(B, "        self._change_basis_one_body_elements(C, C_tilde)\n", "        if C.shape[0] == C.shape[1] and self.np.array_equal(\n            C, self.np.eye(self.l)\n        ):\n            # Nothing to do\n            return\n\n        self._change_basis_one_body_elements(C, C_tilde)\n")], SYSTEM + '''
b = basis(); h = b.h.copy()
b.change_basis(np.eye(3), 2 * np.eye(3))
assert np.allclose(b.h, 2 * h)
''', "identity ket coefficients with other bra coefficients", "nothing is transformed")

seed("s63_small_density", "C09", [(SH, "            rho += phi_tilde_p * rho_qp[q, p] * phi_q\n", "            if abs(rho_qp[q, p]) > 1e-8 * abs(rho_qp[p, p]):\n                rho += phi_tilde_p * rho_qp[q, p] * phi_q\n")], SYSTEM + '''
b = basis(2)
rho = np.array([[1e9, 1], [1, 0]])
d = b.compute_particle_density(rho) - b.compute_particle_density(np.diag([1e9, 0]))
assert np.allclose(d, 2 * (b.spf[0].conj() * b.spf[1]).real, atol=1e-4)
''', "density matrix elements of widely different magnitude", "small off-diagonal elements are left out")

seed("s64_negative_time", "C08", [(T, "        return self._switching_function(current_time) * self._system.u", "        return self._switching_function(max(current_time, 0)) * self._system.u")], SYSTEM + '''
from quantum_systems.time_evolution_operators import AdiabaticSwitching
s = qs.GeneralOrbitalSystem(2, basis())
s.set_time_evolution_operator(AdiabaticSwitching(lambda t: np.exp(t)))
assert np.allclose(s.u_t(-2.0), np.exp(-2) * s.u)
''', "a negative time", "the switching function is frozen at its value at zero")

seed("s65_many_angular_momenta", "C16", [(DS, "        m_array = np.arange(-num_orbitals - 5, num_orbitals + 6)", "        m_array = np.arange(-num_orbitals - 5, min(num_orbitals, 6) + 6)")], '''
from quantum_systems.quantum_dots.two_dim.two_dim_ho import TwoDimHarmonicOscB as H
b = H(15, 3, 4, omega=1.0, omega_c=40.0)
assert list(b.df["m"][:15]) == list(range(15)), list(b.df["m"][:15])
''', "a strong field and more than a dozen states", "states of high angular momentum are missing")

seed("s66_saved_once", "C20", [(SA, "self.np.save(filename, self.samples)\n", "if not os.path.exists(filename + \".npy\"):\n                self.np.save(filename, self.samples)\n")], '''
from quantum_systems.sampler import SampleCollector, Sampler
os.chdir(os.environ["DEMO_TMP"])
class A(Sampler):
    def __init__(self): self.x = []
    def sample(self, step): self.x.append(step)
    def dump(self, samples): samples["x"] = np.array(self.x); return samples
c = SampleCollector([A()], np)
import inspect
c.sample(1); c.dump(".", "f")
c.sample(2); r = c.dump(".", "f")
k = np.load("f.npy", allow_pickle=True).item()
assert list(k["x"]) == list(r["x"])
''', "the same file saved twice", "the file keeps what was saved first")

seed("s67_asymmetric_wells", "C19", [(OP, "        super().__init__(omega)\n        self.l = l\n", "        super().__init__(omega)\n        self.l = abs(l)\n")], '''
from quantum_systems import ODQD
p, q = ODQD.DWPotential(1.0, -2.0), ODQD.DWPotential(1.0, 2.0)
x = np.array([0.5, 1.0])
assert np.allclose(p(x), 0.5 * (x ** 2 + 1 - (-2.0) * abs(x))), p(x)
''', "a negative distance between the wells", "the potential of the positive one")

seed("s68_module_only_once", "C11", [(B, "            setattr(self, name, self.change_arr_module(arr, self.np))\n", "            if arr is not None and hasattr(arr, \"flags\") and (\n                not arr.flags.c_contiguous\n            ):\n                # Views stay what they are\n                continue\n\n            setattr(self, name, self.change_arr_module(arr, self.np))\n")], '''
import types
class A(np.ndarray):
    pass
m = types.ModuleType("m"); m.__dict__.update({k: v for k, v in np.__dict__.items() if not k.startswith("__")})
m.asarray = lambda a, *x: np.asarray(a, *x).view(A)
from quantum_systems import BasisSet
b = BasisSet(2, 1); b.h = np.array([[1, 2], [3, 4]]).T; b.u = np.zeros((2,) * 4); b.change_module(m)
assert isinstance(b.h, A) and isinstance(b.u, A)
''', "elements stored as transposed views", "they keep the old array type")
