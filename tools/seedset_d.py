"""Planted bugs: algorithms that change with the size of the basis set, memory layouts, extreme sizes."""
B = "quantum_systems/basis_set.py"
S = "quantum_systems/system.py"
G = "quantum_systems/general_orbital_system.py"
T = "quantum_systems/time_evolution_operators/operator.py"
SH = "quantum_systems/system_helper.py"

SYSTEM = '''
import quantum_systems as qs
def basis(l=3, dim=1, seed=0):
    np.random.seed(seed)
    b = qs.RandomBasisSet(l, dim)
    b.s = np.eye(l, dtype=complex)
    b.spf = np.random.rand(l, *[4] * dim) + 1j * np.random.rand(l, *[4] * dim)
    return b
'''

seed("s70_blocked_transform", "C02", [(B, '''        # abcd, ds -> abcs
        _u = np.tensordot(u, C, axes=(3, 0))
''', '''        # abcd, ds -> abcs
        if C.shape[1] > 20:
            # Bound the size of the intermediates in large basis sets
            n = C.shape[1] // 8 * 8
            _u = np.zeros(u.shape[:3] + (C.shape[1],), dtype=np.result_type(u, C))
            for k in range(0, n, 8):
                _u[..., k : k + 8] = np.tensordot(u, C[:, k : k + 8], axes=(3, 0))
        else:
            _u = np.tensordot(u, C, axes=(3, 0))
''')], SYSTEM + '''
b = basis(22)
u = b.u.copy()
C = np.linalg.qr(np.random.rand(22, 22))[0]
b.change_basis(C)
e = np.einsum("ap,bq,abcd->pqcd", C, C, u, optimize=True)
e = np.einsum("pqcd,cr,ds->pqrs", e, C, C, optimize=True)
assert np.allclose(b.u, e)
''', "more than 20 orbitals after the change and a number of them that is no multiple of 8", "the last orbitals get no two-body elements")

seed("s71_fock_pairs", "C06", [(G, '''        f += np.einsum("piqi -> pq", u[:, o, :, o])''', '''        if self.n > 8:
            # Spin-orbitals come in pairs
            for i in range(0, self.n - 1, 2):
                f += u[:, i, :, i] + u[:, i + 1, :, i + 1]
        else:
            f += np.einsum("piqi -> pq", u[:, o, :, o])''')], SYSTEM + '''
s = qs.GeneralOrbitalSystem(9, basis(7))
f = s.construct_fock_matrix(s.h, s.u)
assert np.allclose(f, s.h + np.einsum("piqi->pq", s.u[:, s.o, :, s.o]))
''', "an odd number of particles above 8", "the last occupied orbital is left out of the Fock matrix")

seed("s72_density_blocks", "C09", [(SH, "    for p in range(bra_spf.shape[0]):", '''    if bra_spf.shape[0] > 12:
        n = bra_spf.shape[0] // 4 * 4
        for p in range(n):
            for q in range(bra_spf.shape[0]):
                rho += bra_spf[p] * rho_qp[q, p] * ket_spf[q]
        return rho

    for p in range(bra_spf.shape[0]):''')], SYSTEM + '''
b = basis(14)
r = np.random.rand(14, 14) + 1j * np.random.rand(14, 14)
assert np.allclose(b.compute_particle_density(r), np.einsum("qp,px,qx->x", r, b.spf.conj(), b.spf))
''', "more than 12 functions, not a multiple of 4", "contributions of the last functions are dropped")

seed("s73_empty_copy", "C07", [(S, "        return copy.deepcopy(self, {id(self.np): self.np})", '''        memo = {id(self.np): self.np}
        if self.n == 0:
            # The vacuum has no state of its own
            memo[id(self._basis_set)] = self._basis_set
        return copy.deepcopy(self, memo)''')], SYSTEM + '''
s = qs.GeneralOrbitalSystem(0, basis())
c = s.copy_system()
h = s.h.copy()
c.change_basis(np.linalg.qr(np.random.rand(6, 6))[0])
assert np.array_equal(s.h, h)
''', "a copy of a system without particles, then a change of either", "both change")

seed("s74_all_occupied", "C01", [(S, "        self._basis_set.change_basis(C, C_tilde)\n        self.set_system_size", '''        self._basis_set.change_basis(C, C_tilde)
        if C.shape[1] == self.n:
            # Every orbital is occupied
            return
        self.set_system_size''')], SYSTEM + '''
s = qs.GeneralOrbitalSystem(2, basis())
s.change_basis(np.linalg.qr(np.random.rand(6, 6))[0][:, :2])
assert (s.l, s.m) == (2, 0) and (s.v.start, s.v.stop) == (2, 2)
''', "a change to as many orbitals as there are particles", "the sizes stay those of the old basis")

seed("s75_density_order", "C09", [(SH, "    for p in range(bra_spf.shape[0]):", '''    if rho_qp.flags.f_contiguous and not rho_qp.flags.c_contiguous:
        # Walk through the density matrix along contiguous memory
        rho_qp = rho_qp.T

    for p in range(bra_spf.shape[0]):''')], SYSTEM + '''
b = basis(4)
r = np.random.rand(4, 4) + 1j * np.random.rand(4, 4)
assert np.allclose(b.compute_particle_density(np.asfortranarray(r)), np.einsum("qp,px,qx->x", r, b.spf.conj(), b.spf))
''', "a density matrix stored in Fortran order", "it is read transposed")

seed("s76_field_off", "C08", [(T, "        return self._switching_function(current_time) * self._system.u", '''        f = self._switching_function(current_time)
        if abs(f - 1) < 1e-3:
            # Fully switched on
            return self._system.u
        return f * self._system.u''')], SYSTEM + '''
from quantum_systems.time_evolution_operators import AdiabaticSwitching
s = qs.GeneralOrbitalSystem(2, basis())
f = lambda t: t
s.set_time_evolution_operator(AdiabaticSwitching(f))
assert np.array_equal(s.u_t(0.9995), 0.9995 * s.u)
''', "a switching function close to, but not at, one", "the interaction is handed out unscaled")
