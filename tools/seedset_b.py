"""Planted bugs of the concrete systems (two- and one-dimensional, DVR, sampler, random, molecules)."""
D = "quantum_systems/quantum_dots/two_dim/two_dim_helper.py"
DS = "quantum_systems/quantum_dots/two_dim/two_dim_ho.py"
CE = "quantum_systems/quantum_dots/two_dim/coulomb_elements.py"
OD = "quantum_systems/quantum_dots/one_dim/one_dim_qd.py"
OP = "quantum_systems/quantum_dots/one_dim/one_dim_potentials.py"
DV = "quantum_systems/sinc_dvr/one_dim/sinc_dvr.py"
SA = "quantum_systems/sampler.py"
RB = "quantum_systems/random_basis.py"
CU = "quantum_systems/custom_system.py"

seed("s20_shell_closed_form", "C12", [(D, "    while current_shell <= p:\n        shell_counter += 1\n        previous_shell = current_shell\n        current_shell = previous_shell + shell_counter\n",
"    # Closed form for the number of the shell, p lies in\n    shell_counter = int(math.ceil((math.sqrt(8.0 * p + 9.0) - 1) / 2 - 1e-2))\n    previous_shell = shell_counter * (shell_counter - 1) // 2\n    current_shell = previous_shell + shell_counter\n")], '''
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_indices_nm, get_index_p
for p in list(range(3000)) + [N * (N + 1) // 2 + d for N in range(80, 400) for d in (-1, 0, 1)]:
    n, m = get_indices_nm(p)
    assert n >= 0 and get_index_p(n, m) == p, p
''', "the first orbital of a shell beyond the hundredth", "quantum numbers of the previous shell, with negative n")

seed("s21_log_factorial_table", "C13", [(CE, "    fac = 0\n\n    for a in range(2, n + 1):\n        fac += np.log(a)\n\n    return fac\n", "    return LOG_FACTORIAL[min(n, 14)]\n"),
 (CE, "import numba\n\n\n@numba.njit(fastmath=True, cache=True, nogil=True)\ndef coulomb_ho(", "import numba\n\nLOG_FACTORIAL = np.array([math.lgamma(a + 1.0) for a in range(15)])\n\n\n@numba.njit(fastmath=True, cache=True, nogil=True)\ndef coulomb_ho(")], '''
from quantum_systems.quantum_dots.two_dim.coulomb_elements import coulomb_ho
# <00,0m|0m,00>-type element with a closed form: the direct element of two lowest states displaced to m is known
from math import gamma, pi, factorial, sqrt
# direct element <(0,m)(0,0)|(0,m)(0,0)> = int |R_m|^2 |R_0|^2 / r12, checked against quadrature in relative angular momentum
import scipy.integrate as si, scipy.special as sp
def direct(m):
    # momentum space: u = int_0^inf dk F_m(k) F_0(k), F_m(k) = L_m(k^2/4) exp(-k^2/4)
    f = lambda k: sp.eval_laguerre(m, k * k / 4) * np.exp(-k * k / 4) * np.exp(-k * k / 4)
    return si.quad(f, 0, 30)[0]
for m in range(0, 18):
    assert abs(coulomb_ho(0, m, 0, 0, 0, m, 0, 0) - direct(m)) < 1e-8, m
    assert abs(coulomb_ho(0, -m, 0, 0, 0, -m, 0, 0) - direct(m)) < 1e-8, m
''', "orbitals with angular momentum so high that a factorial above 14! occurs (shell 9 and beyond)", "Coulomb elements of high orbitals are wrong")

seed("s23_cache_larger", "C14", [(D, "    # Load and return elements if they exist\n    if os.path.exists(filename):\n", "    # Re-use the elements of a larger basis\n    if not os.path.exists(filename):\n        for name in sorted(os.listdir(storage_path)):\n            if not name.startswith(\"tdho_coulomb_num_orbitals=\"):\n                continue\n            size = name[len(\"tdho_coulomb_num_orbitals=\") : -len(\".npy\")]\n            if name.endswith(\".npy\") and size >= str(num_orbitals):\n                u = np.load(os.path.join(storage_path, name))\n                return u[tuple(4 * [slice(0, num_orbitals)])].copy()\n\n    # Load and return elements if they exist\n    if os.path.exists(filename):\n")], '''
from quantum_systems.quantum_dots.two_dim import two_dim_helper as h
sys.path[0] = os.environ["DEMO_TMP"]
a = [h.get_coulomb_elements(l) for l in (6, 12, 3)]
os.environ["QS_CACHE_TDHO"] = "1"
b = [h.get_coulomb_elements(l) for l in (6, 12, 3)]
for x, y in zip(a, b):
    assert x.shape == y.shape and np.allclose(x, y), (x.shape, y.shape)
''', "elements of one size were stored before and a larger size with more digits is asked for", "the elements of the smaller basis are returned")

seed("s24_cache_memo", "C14", [(D, "    # Use the working directory of caller as storage\n", "    if num_orbitals in _LOADED:\n        return _LOADED[num_orbitals]\n\n    # Use the working directory of caller as storage\n"),
 (D, "        coulomb_elements = np.load(filename)\n", "        coulomb_elements = np.load(filename)\n        _LOADED[num_orbitals] = coulomb_elements\n"),
 (D, "def spf_state(r, theta, p, mass, omega, get_indices_nm):\n", "# Elements already read from disk by this process\n_LOADED = {}\n\n\ndef spf_state(r, theta, p, mass, omega, get_indices_nm):\n")], '''
from quantum_systems.quantum_dots.two_dim import two_dim_helper as h
sys.path[0] = os.environ["DEMO_TMP"]
ref = h.get_coulomb_elements(3)
os.environ["QS_CACHE_TDHO"] = "1"
h.get_coulomb_elements(3)
u = h.get_coulomb_elements(3)
u *= 2
assert np.allclose(h.get_coulomb_elements(3), ref)
''', "three calls of one process with caching, the second result being modified in place", "a later call returns the modified elements")

seed("s25_dipole_half", "C15", [(DS, "            for q in range(self.l):\n                n_q, m_q = self.get_indices_nm(q)\n\n                if abs(m_p - m_q) != 1:\n                    continue\n", "            for q in range(p + 1, self.l):\n                n_q, m_q = self.get_indices_nm(q)\n\n                if abs(m_p - m_q) != 1:\n                    continue\n"),
 (DS, "                self._dipole_moment[1, p, q] = norm * I_r * I_theta_2\n", "                self._dipole_moment[1, p, q] = norm * I_r * I_theta_2\n\n                # The dipole moment is symmetric\n                self._dipole_moment[:, q, p] = self._dipole_moment[:, p, q]\n")], '''
from quantum_systems import TwoDimensionalHarmonicOscillator as T
b = T(3, 3, 5)
d = b.dipole_moment
assert np.allclose(d[1], d[1].conj().T)
''', "the y component of the dipole", "y is symmetric instead of Hermitian")

seed("s26_norm_mass", "C15", [(D, "    norm = a * np.sqrt(\n        scipy.special.factorial(n)\n", "    norm = a / np.sqrt(mass) * np.sqrt(\n        scipy.special.factorial(n)\n"),
 (D, "    radial_dep = np.exp(-(a ** 2) * r ** 2 / 2.0)\n\n    return (a * r) ** abs(m) * laguerre * radial_dep\n", "    radial_dep = np.sqrt(mass) * np.exp(-(a ** 2) * r ** 2 / 2.0)\n\n    return (a * r) ** abs(m) * laguerre * radial_dep\n")], '''
from quantum_systems import TwoDimensionalHarmonicOscillator as T
a, b = T(3, 3, 5), T(3, 3, 5, mass=4)
assert np.allclose(b.dipole_moment, a.dipole_moment / 2)
assert np.isclose(abs(b.spf[0, 0, 0]), np.sqrt(4 / np.pi))
''', "a mass different from one (two sites: the functions themselves stay right)", "dipole and barrier elements are scaled by 1/mass")

seed("s27_field_m_range", "C16", [(DS, "        m_array = np.arange(-num_orbitals - 5, num_orbitals + 6)\n", "        m_max = num_orbitals // 2 + 1\n        m_array = np.arange(-m_max, m_max + 1)\n")], '''
from quantum_systems.quantum_dots.two_dim.two_dim_ho import TwoDimHarmonicOscB as T
b = T(6, 3, 3, omega=0.1, omega_c=4.0)
W = np.sqrt(0.01 + 4)
E = sorted(W * (2 * n + abs(m) + 1) - 2 * m for n in range(12) for m in range(-20, 21))[:6]
assert np.allclose(np.diag(b.h).real, E), (np.diag(b.h), E)
''', "a field so strong that the lowest states all have the same radial number", "states of high angular momentum are missing and higher states are used instead")

seed("s28_field_sort_rounded", "C16", [(D, "    df = df.sort_values(by=[\"E\", \"m\"]).reset_index().drop(\"index\", axis=1)\n", "    df = (\n        df.assign(key=df[\"E\"].round(decimals=1))\n        .sort_values(by=[\"key\", \"m\"])\n        .drop(\"key\", axis=1)\n        .reset_index()\n        .drop(\"index\", axis=1)\n    )\n")], '''
from quantum_systems.quantum_dots.two_dim.two_dim_ho import TwoDimHarmonicOscB as T
for wc in (0.02, 0.05, 0.01):
    b = T(6, 3, 3, omega=1, omega_c=wc)
    e = np.diag(b.h).real
    assert np.all(np.diff(e) >= -1e-12), e
''', "a field so weak that the splitting is below 0.1", "states within the rounding are sorted by m instead of energy")

seed("s29_dot_inner_symmetry", "C17", [(OD, "    for q in range(l):\n        for s in range(l):\n            for i in range(num_grid_points):\n", "    half = num_grid_points // 2\n    for q in range(l):\n        for s in range(l):\n            for i in range(half, num_grid_points):\n"),
 (OD, "                    grid,\n                )\n\n    return inner_integral\n", "                    grid,\n                )\n            # The inner integral has the parity of its two functions\n            parity = 1 - 2 * ((q + s) % 2)\n            for i in range(half):\n                inner_integral[q, s, i] = (\n                    parity * inner_integral[q, s, num_grid_points - 1 - i]\n                )\n\n    return inner_integral\n")], '''
from quantum_systems import ODQD
b = ODQD(3, 5, 101, potential=ODQD.GaussianPotential(4.0, 1.5, 1.0, np))
x, f = b.grid, b.spf
V = b.alpha / np.sqrt((x[:, None] - x) ** 2 + b.a ** 2)
w = np.full(len(x), x[1] - x[0]); w[[0, -1]] /= 2
u = np.einsum("pi,qj,ij,ri,sj,i,j->pqrs", f.conj(), f.conj(), V, f, f, w, w, optimize=True)
assert np.allclose(u, b.u, atol=1e-6)
''', "a potential that is not symmetric about the middle of the grid", "two-body elements use a parity the functions do not have")

seed("s30_odho_dipole", "C17", [(OD, "            Nn = self.normalization(n)\n            Nn_up = self.normalization(n + 1)\n            dip_mom = (\n                Nn\n                * Nn_up\n                * (n + 1)\n                * np.sqrt(np.pi)\n                * 2 ** n\n                * spec.factorial(n)\n                / self.omega\n            )\n", "            dip_mom = np.sqrt((n + 1) / 2) / self.omega\n")], '''
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
for w in (1.0, 0.25, 2.0):
    b = ODHO(4, 16, 801, omega=w)
    d = np.array([[np.trapz(b.spf[p] * b.grid * b.spf[q], b.grid) for q in range(4)] for p in range(4)])
    assert np.allclose(d, b.dipole_moment[0], atol=1e-6), w
''', "the analytic oscillator basis with a frequency different from one", "dipole elements scale as 1/omega instead of 1/sqrt(omega)")

seed("s31_dvr_spin_tile", "C18", [(DV, "            return np.kron(u, np.ones((2, 2)))\n", "            return np.tile(u, (2, 2))\n")], '''
from quantum_systems import ODSincDVR
a, b = ODSincDVR(3, 3, u_repr="2d"), ODSincDVR(3, 3, u_repr="4d")
a.change_to_general_orbital_basis(anti_symmetrize=False)
b.change_to_general_orbital_basis(anti_symmetrize=False)
a.set_u_repr("4d")
assert np.allclose(a.u, b.u)
''', "spin doubling without anti-symmetrisation while the compact storage is in use", "the compact interaction is doubled in blocks instead of alternating spins")

seed("s32_dvr_ctilde", "C18", [(DV, "                \"bs,ar,qb,pa,ab->pqrs\",\n                C,\n                C,\n                C_tilde,\n                C_tilde,\n                _u,\n                optimize=True,\n            )\n            if anti", "                \"bs,ar,bq,ap,ab->pqrs\",\n                C,\n                C,\n                C.conj(),\n                C.conj(),\n                _u,\n                optimize=True,\n            )\n            if anti")], '''
from quantum_systems import ODSincDVR
np.random.seed(1)
C = np.random.rand(3, 3) + 1j * np.random.rand(3, 3)
a, b = ODSincDVR(3, 3, u_repr="2d"), ODSincDVR(3, 3, u_repr="4d")
a.change_basis(C, np.linalg.inv(C))
b.change_basis(C, np.linalg.inv(C))
assert np.allclose(a.u, b.u)
''', "a bi-orthogonal basis change while the compact storage is in use", "the bra coefficients are ignored")

seed("s33_heaviside", "C19", [(OP, "            np.heaviside(x, 0.5) - 0.5\n", "            np.heaviside(x, 0) - 0.5\n")], '''
from quantum_systems import ODQD
v = ODQD.DWPotential(1.0, 4.0)
assert v.derivative(np.array([-1.0, 0.0, 1.0]))[1] == 0
''', "the derivative exactly at the kink", "a one-sided derivative instead of the mean")

seed("s34_gauss_clip", "C19", [(OP, "    def derivative(self, x):\n        return -(x - self.center) / self.deviation ** 2 * self(x)\n", "    def derivative(self, x):\n        return (\n            (x - self.center)\n            / self.deviation ** 2\n            * abs(self(x))\n        )\n")], '''
from quantum_systems import ODQD
x = np.linspace(-2, 2, 9)
for w in (1.0, -2.0):
    v = ODQD.GaussianPotential(w, 0.5, 0.7, np)
    assert np.allclose(v.derivative(x), (v(x + 1e-5) - v(x - 1e-5)) / 2e-5, atol=1e-6)
''', "a repulsive (negative weight) Gaussian", "the derivative has the wrong sign")

seed("s35_sampler_fresh", "C20", [(SA, "        for sampler in self.samplers:\n            self.samples = sampler.dump(self.samples)\n", "        samples = dict()\n        for sampler in self.samplers:\n            samples = sampler.dump(samples)\n        samples.update(self.samples)\n        self.samples = samples\n")], '''
from quantum_systems.sampler import SampleCollector
class S:
    def __init__(self): self.k = 0
    def sample(self, step): self.k += 1
    def dump(self, samples):
        samples["k"] = self.k
        return samples
c = SampleCollector([S()], np)
c.sample(0)
c.dump(save_samples=False)
c.sample(1)
assert c.dump(save_samples=False)["k"] == 2
''', "two dumps with sampling in between", "the second dump returns the samples of the first")

seed("s36_sampler_order", "C20", [(SA, "        if type(samplers) not in [list, tuple, set]:\n            samplers = list(samplers)\n", "        if type(samplers) not in [list, tuple, set]:\n            samplers = set(samplers)\n")], '''
from quantum_systems.sampler import SampleCollector
log = []
class S:
    def __init__(self, k): self.k = k
    def __hash__(self): return 100 - self.k
    def __eq__(self, o): return self.k == o.k
    def sample(self, step): log.append(self.k)
    def dump(self, samples): return samples
c = SampleCollector((S(k) for k in range(5)), np)
c.sample(0)
assert log == list(range(5)), log
''', "samplers given as a generator", "samplers are called in an arbitrary order")

seed("s37_random_seeded", "C21", [(RB, "        return np.random.random(shape) + 1j * np.random.random(shape)\n", "        real = np.random.random(shape)\n        return real + 1j * real\n")], '''
from quantum_systems import RandomBasisSet
b = RandomBasisSet(3, 1)
assert not np.allclose(b.u.real, b.u.imag)
''', "looking at the imaginary parts", "real and imaginary parts of every two-body element are equal")

seed("s38_random_dipole", "C21", [(RB, "        for i in range(len(dipole_moment)):\n            dipole_moment[i] = RandomBasisSet.make_hermitian(dipole_moment[i])\n\n        return dipole_moment\n", "        if len(dipole_moment) == 1:\n            return RandomBasisSet.make_hermitian(dipole_moment[0])[None]\n\n        return 0.5 * (dipole_moment + dipole_moment.conj().transpose(0, 2, 1))[\n            ..., : len(dipole_moment[0])\n        ][::1] if len(dipole_moment) < 3 else 0.5 * (\n            dipole_moment + dipole_moment.transpose(0, 2, 1)\n        )\n")], '''
from quantum_systems import RandomBasisSet
for dim in (1, 2, 3):
    d = RandomBasisSet(3, dim).dipole_moment
    assert np.allclose(d, d.conj().transpose(0, 2, 1)), dim
''', "three dimensions", "dipole components are symmetric instead of Hermitian")

seed("s39_mol_origin", "C22", [(CU, "    nuc_charge_center = np.einsum(\"z,zx->x\", charges, coords) / charges.sum()\n", "    nuc_charge_center = np.einsum(\"z,zx->x\", charges, coords) / mol.nelectron\n")], '''
import io, contextlib
from quantum_systems import construct_pyscf_system_rhf
with contextlib.redirect_stdout(io.StringIO()):
    s = construct_pyscf_system_rhf("he 0 0 0; h 0 0 1.5", basis="sto-3g", charge=1, add_spin=False)
    t = construct_pyscf_system_rhf("he 0 0 1; h 0 0 2.5", basis="sto-3g", charge=1, add_spin=False)
assert np.allclose(np.diagonal(s.dipole_moment[2]), np.diagonal(t.dipole_moment[2]), atol=1e-5)
''', "a charged molecule away from the origin", "dipole elements refer to a shifted centre")

seed("s40_mol_cart_charge", "C22", [(CU, "    mol = pyscf.gto.Mole()\n    mol.unit = \"bohr\"\n    mol.charge = charge\n    mol.cart = cart\n    mol.build(atom=molecule, basis=basis, **kwargs)\n    nuclear_repulsion_energy = mol.energy_nuc()\n", "    mol = pyscf.gto.Mole()\n    mol.charge = charge\n    mol.cart = cart\n    mol.build(atom=molecule, basis=basis, unit=\"bohr\", **kwargs)\n    nuclear_repulsion_energy = mol.energy_nuc() * (1 if charge >= 0 else 0)\n")], '''
import io, contextlib
from quantum_systems import construct_pyscf_system_rhf, construct_pyscf_system_ao
with contextlib.redirect_stdout(io.StringIO()):
    s = construct_pyscf_system_rhf("o 0 0 0; h 0 0 1.8", basis="sto-3g", charge=-1, add_spin=False)
    t = construct_pyscf_system_ao("o 0 0 0; h 0 0 1.8", basis="sto-3g", charge=-1, add_spin=False)
assert np.isclose(s.nuclear_repulsion_energy, t.nuclear_repulsion_energy)
''', "an anion", "the nuclear repulsion is dropped")

seed("s41_mol_anti", "C22", [(CU, "    system = SpatialOrbitalSystem(n, bs)\n    system.change_basis(C)\n\n    return (\n        system.construct_general_orbital_system(anti_symmetrize=anti_symmetrize)\n        if add_spin\n        else system\n    )\n", "    system = SpatialOrbitalSystem(n, bs)\n    system.change_basis(C)\n\n    return system.construct_general_orbital_system() if add_spin else system\n")], '''
import io, contextlib
from quantum_systems import construct_pyscf_system_rhf
with contextlib.redirect_stdout(io.StringIO()):
    s = construct_pyscf_system_rhf("he 0 0 0", basis="6-31g", anti_symmetrize=False)
assert not np.allclose(s.u, -s.u.transpose(0, 1, 3, 2))
''', "asking for spin without anti-symmetrisation", "the elements are anti-symmetrised all the same")

seed("s42_dw_negative", "C23", [(D, "        for q in range(num_orbitals):\n            n_q, m_q = get_indices_nm(q)\n            r_q = spf_radial_function(n_q, m_q, mass, omega)\n\n            if int(abs(m_p - m_q)) == 1:\n", "        if barrier_strength <= 0:\n            # No barrier, only the oscillator remains\n            continue\n\n        for q in range(num_orbitals):\n            n_q, m_q = get_indices_nm(q)\n            r_q = spf_radial_function(n_q, m_q, mass, omega)\n\n            if int(abs(m_p - m_q)) == 1:\n")], '''
from quantum_systems import TwoDimensionalDoubleWell as W
a, b, c = (W(3, 3, 2, barrier_strength=x).h for x in (1.5, -1.5, 0))
assert np.allclose((a + b) / 2 - c, np.eye(3) * 1.5 ** 2 / 8)
''', "a negative barrier strength (an attractive ridge)", "the elements of |x| are left out")

seed("s43_dw_zero_barrier_np", "C23", [(D, "            if int(abs(m_p - m_q)) == 1:\n                continue\n", "            if int(abs(m_p - m_q)) == 1 or abs(p - q) > 6:\n                # Far apart in energy\n                continue\n")], '''
from quantum_systems import TwoDimensionalDoubleWell as W
b = W(10, 3, 2, barrier_strength=2)
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_indices_nm
# |x| does not vanish between (0,0) and ... any pair of even difference: check symmetric sum rule through quadrature
x = np.linspace(0, 12, 4001); t = np.linspace(0, 2 * np.pi, 721)
from quantum_systems.quantum_dots.two_dim.two_dim_helper import spf_state
R, T = np.meshgrid(x, t)
f = [spf_state(R, T, p, 1, 1, get_indices_nm) for p in range(10)]
e = lambda p, q: np.trapz(np.trapz(f[p].conj() * f[q] * R * R * abs(np.cos(T)), x, axis=1), t)
for p in range(10):
    assert abs(b.h[p, 8] - (4 + 0.5 if p == 8 else 0) + e(p, 8)) < 1e-4, p
''', "at least ten orbitals", "some barrier elements between distant orbitals are missing")
