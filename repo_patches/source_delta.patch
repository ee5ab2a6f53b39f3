From 32a8bb305acf06993eea1063285b1cff36be8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 01/20] fix: store the transformed spin matrices in a basis
 change

---
 quantum_systems/basis_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..07aba0f 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -343,11 +343,14 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
+
             if spin is not None:
                 spin = self.transform_one_body_elements(
                     spin, C, C_tilde=C_tilde, np=self.np
                 )
+                setattr(self, name, spin)
 
     def _change_basis_two_body_elements(self, C, C_tilde):
         self.u = self.transform_two_body_elements(
-- 
2.43.0


From 19779c6485a26562f9fbe8035193a226c3b348d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 02/20] fix: one-body part of S^2 for non-orthonormal basis
 sets

---
 quantum_systems/basis_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 07aba0f..622c4d3 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -701,7 +701,9 @@ class BasisSet:
         spin_2_tb = np.zeros((l, l, l, l), dtype=spin_2.dtype)
 
         for s_i in [spin_x, spin_y, spin_z]:
-            spin_2 += s_i @ overlap @ s_i
+            # The spin matrices contain the overlap, hence the inverse overlap
+            # in the resolution of the identity.
+            spin_2 += s_i @ np.linalg.solve(overlap, s_i)
             spin_2_tb += np.einsum("pr, qs -> pqrs", s_i, s_i)
 
         return spin_2, spin_2_tb
-- 
2.43.0


From e5049568657509a00131e015d262abe53244fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 03/20] fix: derivative of the quartic term in
 SymmetricDWPotential

---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index 21aae87..f06e60f 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -85,7 +85,7 @@ class SymmetricDWPotential(OneDimPotential):
         return self.a * x ** 6 + self.b * x ** 4 + self.c * x ** 2
 
     def derivative(self, x):
-        return 6 * self.a * x ** 5 + 3 * self.b * x ** 3 + 2 * self.c * x
+        return 6 * self.a * x ** 5 + 4 * self.b * x ** 3 + 2 * self.c * x
 
 
 class AsymmetricDWPotential(OneDimPotential):
-- 
2.43.0


From dfb7517a2f8e38afc77e3f766093eedcc1ae71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 04/20] fix: let ODSincDVR.set_u_repr store the converted
 elements

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..c6e7453 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -135,9 +135,11 @@ class ODSincDVR(BasisSet):
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
             )
             new_u[coords0, coords1, coords0, coords1] = self.u[coords0, coords1]
+            self.u = new_u
         elif new_repr == "2d":
             new_u = np.zeros((self.l, self.l), dtype=self.u.dtype)
             new_u[coords0, coords1] = self.u[coords0, coords1, coords0, coords1]
+            self.u = new_u
         else:
             raise ValueError(
                 "'{}' is not a valid representation".format(new_repr)
-- 
2.43.0


From 436e332cce9455ec6c16cb28d2ee6ed46695d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 05/20] fix: accept a spin basis in
 ODSincDVR.change_to_general_orbital_basis

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index c6e7453..da87483 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -178,7 +178,9 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -187,7 +189,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


From 0d3970189a8a55309abd6f03602583c222e4af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 06/20] fix: anti-symmetrize the elements of a 2d ODSincDVR
 instead of only flagging it

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index da87483..81074b7 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -192,6 +192,13 @@ class ODSincDVR(BasisSet):
             a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
+    def anti_symmetrize_two_body_elements(self):
+        # Anti-symmetric elements can not be represented by a 2d u.
+        if not self.anti_symmetrized_u and self.u_repr == "2d":
+            self.set_u_repr("4d")
+
+        super().anti_symmetrize_two_body_elements()
+
     def change_module(self, np):
         if self.sparse_repr:
 
-- 
2.43.0


From 28d40aef6694e805abb36664e968b3119dc49587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 07/20] fix: copy basis sets and systems with potentials
 holding the array module

---
 quantum_systems/basis_set.py | 18 ++++--------------
 quantum_systems/system.py    | 20 ++++----------------
 2 files changed, 8 insertions(+), 30 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 622c4d3..f92afa9 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -742,9 +742,8 @@ class BasisSet:
         return [length == axis for axis in arr.shape]
 
     def copy_basis(self):
-        """Function creating a deep copy of the current basis. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current basis. The
+        array module is shared between the two.
 
         Returns
         -------
@@ -752,14 +751,5 @@ class BasisSet:
             A deep copy of the current basis.
         """
 
-        np = self.np
-        self.np = None
-
-        new_basis = copy.deepcopy(self)
-
-        new_basis.change_module(np)
-        self.change_module(np)
-
-        assert self.np is np
-
-        return new_basis
+        # Share all references to the module (which can not be deep-copied).
+        return copy.deepcopy(self, {id(self.np): self.np})
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..856c048 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -161,9 +161,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         )
 
     def copy_system(self):
-        """Function creating a deep copy of the current system. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current system. The
+        array module is shared between the two.
 
         Returns
         -------
@@ -171,16 +170,5 @@ class QuantumSystem(metaclass=abc.ABCMeta):
             A deep copy of the current system.
         """
 
-        np = self.np
-        self.np = None
-        self._basis_set.np = None
-
-        new_system = copy.deepcopy(self)
-
-        new_system.change_module(np)
-        self.change_module(np)
-
-        assert self.np is np
-        assert self._basis_set.np is np
-
-        return new_system
+        # Share all references to the module (which can not be deep-copied).
+        return copy.deepcopy(self, {id(self.np): self.np})
-- 
2.43.0


From 7dd65cdf16fc9e78815d8ebd5767ad948a6fd060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 08/20] fix: construct a general orbital system with a
 time-evolution operator attached

---
 quantum_systems/spatial_orbital_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..64ed60e 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -98,7 +98,10 @@ class SpatialOrbitalSystem(QuantumSystem):
 
         if not self._time_evolution_operator is None:
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                copy.deepcopy(
+                    self._time_evolution_operator,
+                    {id(self): gos, id(self.np): self.np},
+                )
             )
 
         return gos
-- 
2.43.0


From 9a7aed2b1c48035f85641d2a2ff76380039b434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 09/20] fix: include the mass in the two-dimensional Coulomb
 and barrier elements

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 3 ++-
 quantum_systems/quantum_dots/two_dim/two_dim_ho.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..e5d7956 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -315,7 +315,7 @@ def get_double_well_one_body_elements(
 
         h[p, p] += (
             omega * get_shell_energy(n_p, m_p)
-            + omega ** 2 * barrier_strength ** 2 / 8.0
+            + mass * omega ** 2 * barrier_strength ** 2 / 8.0
         )
 
         for q in range(num_orbitals):
@@ -327,6 +327,7 @@ def get_double_well_one_body_elements(
 
             h[p, q] -= (
                 0.5
+                * mass
                 * omega ** 2
                 * barrier_strength
                 * spf_norm(n_p, m_p, mass, omega)
diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
index 346d978..e59c86d 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
@@ -83,7 +83,7 @@ class TwoDimensionalHarmonicOscillator(BasisSet):
 
     def setup_basis(self):
         self._h = self.omega * get_one_body_elements(self.l)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements(
             self.l, verbose=self.verbose
         )
         self._s = np.eye(self.l)
@@ -290,7 +290,7 @@ class TwoDimHarmonicOscB(TwoDimensionalHarmonicOscillator):
 
         self._h = get_one_body_elements_B(num_orbitals, df=self.df)
         self._s = np.eye(num_orbitals)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements_B(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements_B(
             num_orbitals, df=self.df
         )
 
-- 
2.43.0


From ab2d1539dede4fbab959225d10cff64e45dee9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 10/20] fix: particle density of real functions with a complex
 density matrix

---
 quantum_systems/system_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..b46cc79 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -15,7 +15,9 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
     assert bra_spf.dtype == ket_spf.dtype
 
-    rho = np.zeros(ket_spf.shape[1:], dtype=ket_spf.dtype)
+    rho = np.zeros(
+        ket_spf.shape[1:], dtype=np.result_type(rho_qp, ket_spf.dtype)
+    )
 
     for p in range(bra_spf.shape[0]):
         phi_tilde_p = bra_spf[p]
-- 
2.43.0


From f188f10fe8e5a21f1ed9ed4e4db36e77b6a6367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 11/20] fix: store cached Coulomb elements atomically

---
 .../quantum_dots/two_dim/two_dim_helper.py         | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index e5d7956..0c920fa 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,6 +1,7 @@
 import os
 import sys
 import time
+import uuid
 
 import numpy as np
 import scipy
@@ -242,8 +243,17 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Time spent setting up Coulomb elements {t_1 - t_0} sec")
         print(f"Caching Coulomb elements to {filename}")
 
-    # Store elements
-    np.save(filename, coulomb_elements)
+    # Store elements. Write to a temporary file first, such that neither an
+    # interrupted nor a concurrent call can find a partially written file.
+    tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_filename, "wb") as f:
+            np.save(f, coulomb_elements)
+        os.replace(tmp_filename, filename)
+    except BaseException:
+        if os.path.exists(tmp_filename):
+            os.remove(tmp_filename)
+        raise
 
     # Return newly created Coulomb elements
     return coulomb_elements
-- 
2.43.0


From f4cb8ae98ad746e54b17009bff81035beaa71b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 12/20] fix: reject unfit coefficient matrices before the basis
 is changed

---
 quantum_systems/basis_set.py | 10 +++++++---
 quantum_systems/system.py    |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index f92afa9..96fd3d3 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -413,13 +413,17 @@ class BasisSet:
             ``None`` and we treat ``C_tilde`` as the Hermitian conjugate of
             ``C``.
         """
-        # Update basis set size
-        self.l = C.shape[1]
-
         # Ensure that C_tilde is not None
         if C_tilde is None:
             C_tilde = C.conj().T
 
+        # Check the coefficients prior to changing anything
+        assert C.shape[0] == self.l
+        assert C_tilde.shape == C.shape[::-1]
+
+        # Update basis set size
+        self.l = C.shape[1]
+
         self._change_basis_one_body_elements(C, C_tilde)
         self._change_basis_two_body_elements(C, C_tilde)
 
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 856c048..de7ad9a 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -64,6 +64,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         self._basis_set.change_module(self.np)
 
     def change_basis(self, C, C_tilde=None):
+        assert self.n <= C.shape[1]
+
         self._basis_set.change_basis(C, C_tilde)
         self.set_system_size(self.n, self._basis_set.l)
 
-- 
2.43.0


From 1f10dafc645fb409eb3fef334a5aa06eea7c74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 13/20] fix: check the spin basis before the basis set is
 converted

---
 quantum_systems/basis_set.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 96fd3d3..d88a282 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -535,6 +535,14 @@ class BasisSet:
             )
             return
 
+        a = self.np.array(a).astype(self.np.complex128).reshape(-1, 1)
+        b = self.np.array(b).astype(self.np.complex128).reshape(-1, 1)
+
+        # Check that spin basis elements are orthonormal
+        assert abs(self.np.dot(a.conj().T, a) - 1) < 1e-12
+        assert abs(self.np.dot(b.conj().T, b) - 1) < 1e-12
+        assert abs(self.np.dot(a.conj().T, b)) < 1e-12
+
         self._includes_spin = True
 
         self.l = 2 * self.l
@@ -550,13 +558,8 @@ class BasisSet:
         # self.spin_2 also becomes huge. Until a better representation of self.spin_2
         # can be found, we've removed the spin functionality.
         if getattr(self, "u_repr", "4d") != "2d":
-            self.a = self.np.array(a).astype(self.np.complex128).reshape(-1, 1)
-            self.b = self.np.array(b).astype(self.np.complex128).reshape(-1, 1)
-
-            # Check that spin basis elements are orthonormal
-            assert abs(self.np.dot(self.a.conj().T, self.a) - 1) < 1e-12
-            assert abs(self.np.dot(self.b.conj().T, self.b) - 1) < 1e-12
-            assert abs(self.np.dot(self.a.conj().T, self.b)) < 1e-12
+            self.a = a
+            self.b = b
 
             (
                 self.sigma_x,
-- 
2.43.0


From 223636072213866d10931b7740c09818ffd129a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 14/20] fix: reject too many particles before the basis set is
 converted

---
 quantum_systems/general_orbital_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 971c65e..79878f6 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -40,11 +40,14 @@ class GeneralOrbitalSystem(QuantumSystem):
         self, n, basis_set, a=[1, 0], b=[0, 1], anti_symmetrize=True, **kwargs
     ):
         if not basis_set.includes_spin:
+            assert n <= 2 * basis_set.l
 
             basis_set = basis_set.change_to_general_orbital_basis(
                 a=a, b=b, anti_symmetrize=anti_symmetrize
             )
 
+        assert n <= basis_set.l
+
         if anti_symmetrize:
             # Anti-symmetrize in case of a basis set containing general
             # orbitals (i.e., basis_set.includes_spin == True), without the
-- 
2.43.0


From 068eb730636b6c4b5495ed455e1f72c1849dbc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:01 +0000
Subject: [PATCH 15/20] fix: LaserField with a constant pulse used the
 polarization as its amplitude

Both closures captured the same local variable, so a constant pulse
together with a constant (or default) polarization vector evaluated the
pulse to the polarization vector.
---
 quantum_systems/time_evolution_operators/operator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..93fbdc6 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -89,8 +89,8 @@ class LaserField(TimeEvolutionOperator):
         np = self._system.np
 
         if not callable(self._laser_pulse):
-            tmp = self._laser_pulse
-            self._laser_pulse = lambda t: tmp
+            laser_pulse = self._laser_pulse
+            self._laser_pulse = lambda t: laser_pulse
 
         if self._polarization is None:
             # Set default polarization along x-axis
@@ -98,8 +98,8 @@ class LaserField(TimeEvolutionOperator):
             self._polarization[0] = 1
 
         if not callable(self._polarization):
-            tmp = self._polarization
-            self._polarization = lambda t: tmp
+            polarization = self._polarization
+            self._polarization = lambda t: polarization
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
             self._polarization(current_time),
-- 
2.43.0


From 48bed54c78003e0b758acabd5ba163cfd9693aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:52 +0000
Subject: [PATCH 16/20] fix: notice failure to write the last cached Coulomb
 elements

np.save hands actual files to ndarray.tofile, which ignores errors when its
buffer is flushed. On a full disk a truncated file was moved into place, and
all later calls for the same number of orbitals failed.
---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 0c920fa..dccb380 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import time
@@ -244,11 +245,15 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Caching Coulomb elements to {filename}")
 
     # Store elements. Write to a temporary file first, such that neither an
-    # interrupted nor a concurrent call can find a partially written file.
+    # interrupted nor a concurrent call can find a partially written file. The
+    # elements are serialized in memory, as np.save does not notice a failure
+    # to write the last bytes when given an actual file.
     tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
+    buffer = io.BytesIO()
+    np.save(buffer, coulomb_elements)
     try:
         with open(tmp_filename, "wb") as f:
-            np.save(f, coulomb_elements)
+            f.write(buffer.getbuffer())
         os.replace(tmp_filename, filename)
     except BaseException:
         if os.path.exists(tmp_filename):
-- 
2.43.0


From 34ca4dc505e733b82079eb1f1392c9f94edbe37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 17/20] fix: setting new single-particle functions drops bra
 functions derived from the old ones

---
 quantum_systems/basis_set.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index d88a282..04632e4 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -59,6 +59,7 @@ class BasisSet:
 
         self._spf = None
         self._bra_spf = None
+        self._bra_spf_is_conj = False
 
         self._nuclear_repulsion_energy = 0
 
@@ -221,11 +222,17 @@ class BasisSet:
 
         self._spf = spf
 
+        if self._bra_spf_is_conj:
+            # The stored bra functions are the conjugate of the previous kets.
+            self._bra_spf = None
+            self._bra_spf_is_conj = False
+
     @property
     def bra_spf(self):
         if self._bra_spf is None and self._spf is not None:
             # Return complex conjugate in case of a Hermitian basis set.
             self._bra_spf = self._spf.conj()
+            self._bra_spf_is_conj = True
 
         return self._bra_spf
 
@@ -236,6 +243,7 @@ class BasisSet:
             assert len((*bra_spf.shape[1:],)) == self.dim
 
         self._bra_spf = bra_spf
+        self._bra_spf_is_conj = False
 
     @property
     def nuclear_repulsion_energy(self):
-- 
2.43.0


From 8d4f6b064b8c0bcb43afc3a069f39eff5bea2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 18/20] fix: one time-evolution operator attached to several
 systems evaluated for the last one only

---
 quantum_systems/system.py                            |  6 ++++++
 quantum_systems/time_evolution_operators/operator.py | 12 ++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index de7ad9a..d4eb2d3 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -144,12 +144,18 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         if self._time_evolution_operator is None:
             return self._basis_set.h
 
+        # The operator may be shared with another system
+        self._time_evolution_operator.set_system(self)
+
         return self._time_evolution_operator.h_t(current_time)
 
     def u_t(self, current_time):
         if self._time_evolution_operator is None:
             return self._basis_set.u
 
+        # The operator may be shared with another system
+        self._time_evolution_operator.set_system(self)
+
         return self._time_evolution_operator.u_t(current_time)
 
     def transform_one_body_elements(self, h, C, C_tilde=None):
diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 93fbdc6..181da7e 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -94,15 +94,15 @@ class LaserField(TimeEvolutionOperator):
 
         if self._polarization is None:
             # Set default polarization along x-axis
-            self._polarization = np.zeros(self._system.dipole_moment.shape[0])
-            self._polarization[0] = 1
-
-        if not callable(self._polarization):
+            polarization = np.zeros(self._system.dipole_moment.shape[0])
+            polarization[0] = 1
+        elif callable(self._polarization):
+            polarization = self._polarization(current_time)
+        else:
             polarization = self._polarization
-            self._polarization = lambda t: polarization
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
-            self._polarization(current_time),
+            polarization,
             self._system.dipole_moment,
             axes=(0, 0),
         )
-- 
2.43.0


From c534c909b5978951e68f89eda613b582ff7138ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 19/20] fix: basis sets and systems with a Gaussian potential
 could not be copied after change_module

---
 .../quantum_dots/one_dim/one_dim_potentials.py       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index f06e60f..9c9fb2d 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -1,4 +1,6 @@
 import abc
+import copy
+
 import numpy as np
 
 
@@ -113,6 +115,16 @@ class GaussianPotential(OneDimPotential):
         self.deviation = deviation
         self.np = np
 
+    def __deepcopy__(self, memo):
+        # The array module is shared (it can not be deep-copied).
+        memo[id(self.np)] = self.np
+
+        potential = self.__class__.__new__(self.__class__)
+        memo[id(self)] = potential
+        potential.__dict__.update(copy.deepcopy(self.__dict__, memo))
+
+        return potential
+
     def __call__(self, x):
         return -self.weight * self.np.exp(
             -((x - self.center) ** 2) / (2.0 * self.deviation ** 2)
-- 
2.43.0


From 09dd0c944323a6ae335003ef0f736ad8267aacde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 20/20] fix: change_module left the elements of a sinc-DVR
 basis in compact storage as they were

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 81074b7..579897e 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -199,16 +199,6 @@ class ODSincDVR(BasisSet):
 
         super().anti_symmetrize_two_body_elements()
 
-    def change_module(self, np):
-        if self.sparse_repr:
-
-            self.np = np
-            warnings.warn(
-                "change_module not implemented for sparse u, doing nothing"
-            )
-        else:
-            return super().change_module(np)
-
     @staticmethod
     def add_spin_two_body(u, np):
         """Class method overwriting the static method of BasisSet."""
-- 
2.43.0

