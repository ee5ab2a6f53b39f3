"""Planted bugs of the basis-set / system properties."""
B = "quantum_systems/basis_set.py"
S = "quantum_systems/system.py"
G = "quantum_systems/general_orbital_system.py"
SP = "quantum_systems/spatial_orbital_system.py"
T = "quantum_systems/time_evolution_operators/operator.py"
H = "quantum_systems/system_helper.py"

seed("s01_resize_same_l", "C01", [(S, "        assert n <= l\n\n        self.n = n\n", "        assert n <= l\n\n        if getattr(self, \"l\", None) == l:\n            # Size unchanged, nothing to update\n            return\n\n        self.n = n\n")], '''
from quantum_systems import RandomBasisSet, GeneralOrbitalSystem
s = GeneralOrbitalSystem(2, RandomBasisSet(4, 1))
s.set_system_size(3, 8)
assert (s.n, s.m, s.o, s.v) == (3, 5, slice(0, 3), slice(3, 8)), (s.n, s.m, s.o, s.v)
''', "re-sizing a system with a new particle number and an unchanged basis size", "n, m and the slices keep their old values")

seed("s02_lazy_bra", "C02", [(B, "        self.bra_spf = self.transform_bra_spf(self.bra_spf, C_tilde, self.np)\n", "        if self._bra_spf is not None:\n            self.bra_spf = self.transform_bra_spf(\n                self._bra_spf, C_tilde, self.np\n            )\n")], '''
from quantum_systems import RandomBasisSet
b = RandomBasisSet(3, 1)
b.spf = np.random.rand(3, 5) + 1j * np.random.rand(3, 5)
old = b.spf.conj()
C = np.random.rand(3, 3) + 0j
Ct = np.linalg.inv(C)
b.change_basis(C, Ct)
assert np.allclose(b.bra_spf, np.tensordot(Ct, old, axes=(1, 0)))
''', "a bi-orthogonal basis change (C~ not the adjoint of C) of a basis whose bra functions were never read or set", "the bra functions become the conjugated kets instead of the C~ combinations")

seed("s03_dipole_inplace", "C02", [(B, "        dipole_moment = []\n\n        for i in range(self.dipole_moment.shape[0]):\n            dipole_moment.append(\n                self.transform_one_body_elements(\n                    self.dipole_moment[i], C, np=self.np, C_tilde=C_tilde\n                )\n            )\n\n        self.dipole_moment = self.np.asarray(dipole_moment)\n",
 "        dipole_moment = self.np.zeros(\n            (self.dipole_moment.shape[0], self.l, self.l),\n            dtype=self.dipole_moment.dtype,\n        )\n\n        for i in range(self.dipole_moment.shape[0]):\n            dipole_moment[i] = self.transform_one_body_elements(\n                self.dipole_moment[i], C, np=self.np, C_tilde=C_tilde\n            )\n\n        self.dipole_moment = dipole_moment\n")], '''
from quantum_systems import BasisSet
b = BasisSet(2, 1)
b.h = np.eye(2); b.u = np.zeros((2,) * 4); b.s = np.eye(2)
b.dipole_moment = np.array([[[1.0, 2.0], [2.0, -1.0]]])
C = np.array([[1, 1j], [1j, 1]]) / np.sqrt(2)
d = b.dipole_moment[0].copy()
b.change_basis(C)
assert np.allclose(b.dipole_moment[0], C.conj().T @ d @ C)
''', "a real-typed dipole and complex coefficients", "the imaginary part of the transformed dipole is dropped")

seed("s04_bra_dropped_on_doubling", "C03", [(B, "            if not self._bra_spf is None:\n                self.bra_spf = self.add_spin_bra_spf(self._bra_spf, self.np)\n", "            # The dual state is reconstructed from the doubled ket states.\n            self._bra_spf = None\n")], '''
from quantum_systems import RandomBasisSet
b = RandomBasisSet(2, 1)
b.spf = np.random.rand(2, 5) + 1j * np.random.rand(2, 5)
bra = np.random.rand(2, 5) + 1j
b.bra_spf = bra
b.change_to_general_orbital_basis()
assert np.allclose(b.bra_spf, np.repeat(bra, 2, axis=0))
''', "explicit (bi-orthogonal) bra functions before the conversion", "bra functions are replaced by the conjugated kets")

seed("s05_antisym_after_change", "C04", [(B, "        self.u = self.transform_two_body_elements(\n            self.u, C, np=self.np, C_tilde=C_tilde\n        )\n\n        if self.spin_2_tb", "        self.u = self.transform_two_body_elements(\n            self.u, C, np=self.np, C_tilde=C_tilde\n        )\n        self._anti_symmetrized_u = (\n            self._anti_symmetrized_u and C.shape[0] == C.shape[1]\n        )\n\n        if self.spin_2_tb")], '''
from quantum_systems import RandomBasisSet, GeneralOrbitalSystem
b = RandomBasisSet(3, 1)
g = GeneralOrbitalSystem(2, b)
C = np.eye(6)[:, :4]
g.change_basis(C)
u = g.u.copy()
assert b.anti_symmetrized_u
GeneralOrbitalSystem(2, b)
assert np.allclose(u, b.u)
''', "a rectangular basis change of an anti-symmetrised basis followed by another request for anti-symmetrisation", "the status is lost and the elements are anti-symmetrised twice")

seed("s06_s2_not_antisym", "C05", [(B, "            if self.spin_2_tb is not None:\n                self.spin_2_tb = self.anti_symmetrize_u(self.spin_2_tb)\n\n            self._anti_symmetrized_u = True\n", "            if self.spin_2_tb is not None and self._spf is None:\n                self.spin_2_tb = self.anti_symmetrize_u(self.spin_2_tb)\n\n            self._anti_symmetrized_u = True\n")], '''
from quantum_systems import RandomBasisSet
b = RandomBasisSet(2, 1)
b.spf = np.ones((2, 3)) + 0j
b.change_to_general_orbital_basis(anti_symmetrize=True)
t = b.spin_2_tb
assert np.allclose(t, -t.transpose(0, 1, 3, 2))
''', "a basis with single-particle functions", "the two-body part of S^2 stays un-anti-symmetrised although u is anti-symmetrised")

seed("s07_pauli_noconj", "C05", [(B, "                sigma_y[i, j] = np.dot(s.conj().T, np.dot(sigma_y_mat, t))\n", "                sigma_y[i, j] = np.dot(s.T, np.dot(sigma_y_mat, t))\n")], '''
from quantum_systems import BasisSet
a = np.array([1, 1j]).reshape(-1, 1) / np.sqrt(2)
b = np.array([1, -1j]).reshape(-1, 1) / np.sqrt(2)
x, y, z = BasisSet.setup_pauli_matrices(a, b, np)
assert np.allclose(x @ y - y @ x, 2j * z)
''', "a complex spin pair", "sigma_y is not the matrix of the Pauli operator in that pair")

seed("s08_fock_buffer", "C06", [(SP, "        f.fill(0)\n", "        f *= 0\n")], '''
from quantum_systems import RandomBasisSet, SpatialOrbitalSystem
s = SpatialOrbitalSystem(2, RandomBasisSet(3, 1))
f = np.full((3, 3), np.nan, dtype=complex)
s.construct_fock_matrix(s.h, s.u, f)
assert np.allclose(f, s.construct_fock_matrix(s.h, s.u))
''', "a caller-supplied output array with non-finite contents (np.empty)", "old contents leak into the Fock matrix")

seed("s09_energy_real", "C06", [(G, "        return self.np.trace(self.h[o, o]) + 0.5 * self.np.trace(\n            self.np.trace(self.u[o, o, o, o], axis1=1, axis2=3)\n        )\n", "        return self.np.trace(self.h[o, o]) + self.np.sum(\n            self.np.triu(\n                self.np.diagonal(\n                    self.np.diagonal(self.u[o, o, o, o], axis1=0, axis2=2),\n                    axis1=0,\n                    axis2=1,\n                ),\n                1,\n            )\n        )\n")], '''
from quantum_systems import RandomBasisSet, GeneralOrbitalSystem
g = GeneralOrbitalSystem(3, RandomBasisSet(3, 1), anti_symmetrize=False)
o = g.o
e = np.trace(g.h[o, o]) + 0.5 * np.einsum("ijij->", g.u[o, o, o, o])
assert np.allclose(e, g.compute_reference_energy())
''', "a general-orbital system built without anti-symmetrisation", "the i=j terms of the interaction are left out of the reference energy")

seed("s10_shallow_gos", "C07", [(SP, "            self._basis_set.copy_basis(),\n", "            copy.copy(self._basis_set),\n"), (SP, "        import copy\n\n        if not", "        if not"), (SP, "from quantum_systems import QuantumSystem, GeneralOrbitalSystem\n", "import copy\n\nfrom quantum_systems import QuantumSystem, GeneralOrbitalSystem\n")], '''
from quantum_systems import SpatialOrbitalSystem, ODQD
b = ODQD(2, 5, 21)
s = SpatialOrbitalSystem(2, b)
g = s.construct_general_orbital_system()
g0 = b.grid.copy()
g.grid[0] = 99
assert np.array_equal(b.grid, g0)
''', "an in-place write to the grid after building a general-orbital system from a closed-shell one (all other arrays are rebuilt by the conversion)", "the grid is shared between the two systems")

seed("s11_teo_not_removed", "C08", [(S, "        self._time_evolution_operator = time_evolution_operator\n        if not self._time_evolution_operator is None:\n            self._time_evolution_operator.set_system(self)\n", "        if time_evolution_operator is None:\n            return\n\n        self._time_evolution_operator = time_evolution_operator\n        self._time_evolution_operator.set_system(self)\n")], '''
from quantum_systems import RandomBasisSet, GeneralOrbitalSystem
from quantum_systems.time_evolution_operators import AdiabaticSwitching
g = GeneralOrbitalSystem(2, RandomBasisSet(2, 1))
g.set_time_evolution_operator(AdiabaticSwitching(2))
g.set_time_evolution_operator(None)
assert not g.has_two_body_time_evolution_operator
assert np.allclose(g.u_t(1.0), g.u)
''', "removing an attached operator", "the old operator stays attached")

seed("s12_weight_frozen", "C08", [(T, "        return self._system.h + self._weight(current_time) * self._operator\n", "        if not hasattr(self, \"_last\") or self._last[0] != current_time:\n            self._last = (\n                current_time,\n                self._system.h + self._weight(current_time) * self._operator,\n            )\n\n        return self._last[1]\n")], '''
from quantum_systems import RandomBasisSet, GeneralOrbitalSystem
from quantum_systems.time_evolution_operators import CustomOneBodyOperator
g = GeneralOrbitalSystem(2, RandomBasisSet(2, 1))
g.set_time_evolution_operator(CustomOneBodyOperator(2, np.eye(4)))
g.h_t(0.5)
C, _ = np.linalg.qr(np.random.rand(4, 4))
g.change_basis(C)
assert np.allclose(g.h_t(0.5), g.h + 2 * np.eye(4))
''', "the same time evaluated before and after a basis change", "h(t) is the one of the old basis")

seed("s13_density_hermitian", "C09", [(H, "        for q in range(ket_spf.shape[0]):\n            phi_q = ket_spf[q]\n            rho += phi_tilde_p * rho_qp[q, p] * phi_q\n", "        rho += phi_tilde_p * rho_qp[p, p] * ket_spf[p]\n        for q in range(p):\n            term = phi_tilde_p * rho_qp[q, p] * ket_spf[q]\n            rho += term + term.conj()\n")], '''
from quantum_systems import RandomBasisSet
b = RandomBasisSet(2, 1)
b.spf = np.random.rand(2, 4) + 1j * np.random.rand(2, 4)
rho = np.random.rand(2, 2) + 1j * np.random.rand(2, 2)
ref = np.einsum("px,qp,qx->x", b.spf.conj(), rho, b.spf)
assert np.allclose(b.compute_particle_density(rho), ref)
''', "a non-Hermitian density matrix (as in coupled-cluster) or non-conjugate bra functions", "half of the off-diagonal contributions are replaced by conjugates of the others")

seed("s14_size_partial", "C10", [(S, "        assert n <= l\n\n        self.n = n\n        self.l = l\n", "        self.n = n\n        self.l = l\n        assert self.n <= self.l\n")], '''
from quantum_systems import RandomBasisSet, GeneralOrbitalSystem
g = GeneralOrbitalSystem(2, RandomBasisSet(2, 1))
try:
    g.set_system_size(5, 4)
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
assert (g.n, g.l, g.m) == (2, 4, 2)
''', "a rejected re-sizing followed by further use of the system", "n is changed although the request was rejected")

seed("s15_spin_check", "C10", [(B, "        assert self.includes_spin\n        assert all(self.check_axis_lengths(spin_2_tb, self.l))\n", "        assert all(self.check_axis_lengths(spin_2_tb, self.l))\n")], '''
from quantum_systems import RandomBasisSet
b = RandomBasisSet(2, 1)
try:
    b.spin_2_tb = np.zeros((2, 2, 2, 2))
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
''', "setting the two-body part of S^2 on a basis without spin", "the request is accepted")

seed("s16_module_list", "C11", [(B, "            (\"_spin_z\", self.spin_z),\n            (\"_spin_2\", self.spin_2),\n            (\"_spin_2_tb\", self.spin_2_tb),\n        ]:\n            setattr(", "            (\"_spin_z\", self.spin_z),\n            (\"_spin_2\", self.spin_2),\n        ]:\n            setattr(")], '''
import types
from quantum_systems import RandomBasisSet
class A(np.ndarray):
    pass
m = types.ModuleType("m")
m.__dict__.update({k: v for k, v in np.__dict__.items() if not k.startswith("__")})
m.asarray = lambda a, *x, **k: np.asarray(a, *x, **k).view(A)
b = RandomBasisSet(2, 1)
b.change_to_general_orbital_basis()
b.change_module(m)
assert isinstance(b.spin_2_tb, A) and isinstance(b.h, A)
''', "a spin-doubled basis and an array module other than numpy", "one quantity stays an array of the old module")
