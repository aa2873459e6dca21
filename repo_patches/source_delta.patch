From 3b9eb825819f3dab2bfd3dd9f7aef01152cc4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 01/36] fix: give every TensorNetwork its own tensors

_tensor_network was a class attribute, so all instances (and the results of
copy()/to()/save()) overwrote each other's site tensors.
---
 acetn/ipeps/tensor_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..d2e7891 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,6 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -20,6 +19,7 @@ class TensorNetwork:
             dtype (torch.dtype): The data type for the tensors (e.g., torch.float32).
             device (torch.device): The device on which the tensors will be allocated (e.g., 'cpu' or 'cuda').
         """
+        self._tensor_network = {}
         self.tn_config = config
         self.nx = config.nx
         self.ny = config.ny
-- 
2.43.0


From c4a2392a7e9ac24995b528fd0f27afeb28e9b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 02/36] fix: saving a tensor network must not change it

save() re-loaded the file it had just written (needed only while all networks
shared one tensor dict) and thereby marked the site states as initialized, so
a later evolve() skipped the model's initial state.
---
 acetn/ipeps/tensor_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index d2e7891..dda958c 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -106,7 +106,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From 507acc7628d11a7343d20802ce77a7093bf75a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 03/36] fix: give every Gate its own gates

_gate was a class attribute shared by all Gate objects.
---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..7e0cc46 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,6 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -22,6 +21,7 @@ class Gate:
         site_list : list, optional
             A list of sites for which one-site gates will be created (default is None).
         """
+        self._gate = {}
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
-- 
2.43.0


From ff593af6dda39efec3130e81b5a8ef8eb4a20ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 04/36] fix: count every Hamiltonian term exactly once in the
 evolution gates

A one-site term was dropped when the other site of the bond has none, the
matrix returned by the model was modified in place (so a model that caches its
terms accumulated them), and plain tensors, which measure() accepts and the
Model interface documents, raised AttributeError.
---
 acetn/evolution/gate.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 7e0cc46..d47ffc0 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -77,7 +77,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(self.hamiltonian_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -95,17 +95,24 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = self.hamiltonian_matrix(model.two_site_hamiltonian(bond)).reshape(pD**2, pD**2)
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(self.hamiltonian_matrix(site_ham_1), id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, self.hamiltonian_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
+    @staticmethod
+    def hamiltonian_matrix(ham):
+        """
+        Returns the matrix of a Hamiltonian given as a PauliMatrix or as a torch.Tensor.
+        """
+        return ham.mat if hasattr(ham, 'mat') else ham
+
     def calculate_gate(self, ham, dtau):
         """
         Calculates the gate from the Hamiltonian using the matrix exponential and time step.
-- 
2.43.0


From 0b0cc1c3c56430835215eb3b2369092d88972781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 05/36] fix: evolve an Ipeps built from a given network from
 that network

site_states_initialized was reset unconditionally, so evolve() threw the
tensors passed as ipeps= away and started from the model's product state.
---
 acetn/ipeps/ipeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..d0de9b5 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,7 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
-- 
2.43.0


From 8b7ef8b93ad46eb02befcc6a48f377eb67be3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 06/36] fix: transpose instead of conjugate in the full-system
 rsvd projectors

The two differ for complex tensors, where the projectors were wrong.
---
 acetn/renormalization/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 71c45e1..28bd3c2 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -207,7 +207,7 @@ class ProjectorCalculator:
         V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))
 
         # proj1 = R1.T @ conj(U) = (Q2 @ Q1).T @ conj(U) = Q1.T @ (Q2.T @ conj(U))
-        proj1 = Q1.mH @ (Q2.mH @ conj(U))
+        proj1 = Q1.mT @ (Q2.mT @ conj(U))
         proj1 = proj1.view(*q1D[3:], cD_new)
 
         # proj2 = R2 @ V = (Q4 @ Q3) @ V = Q4 @ (Q3 @ V)
-- 
2.43.0


From 433dbc57610279c4216bd5b1f967b36fbb578699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 07/36] fix: do not conjugate the right factor of the ALS
 initial guess

For complex tensors the guess was not the truncated SVD of a12g.
---
 acetn/evolution/als_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..200b1ab 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -137,7 +137,7 @@ class ALSSolver:
         nD,bD,pD = ar_shape
         a12g_tmp = einsum("yxpq->ypxq", a12g).reshape(nD*pD, nD*pD)
         U,S,Vh = svd(a12g_tmp)
-        V = Vh.mH
+        V = Vh.mT
         S = torch.sqrt(S[:bD]/S[0])
         U = U[:,:bD].reshape(nD,pD,bD)
         V = V[:,:bD].reshape(nD,pD,bD)
-- 
2.43.0


From 781bce19cea501fcaa2e951c57c785f486918099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 08/36] fix: default the Heisenberg coupling J to 1.0 as
 documented

A config without model params (or without J) failed with a TypeError.
---
 acetn/model/models/heisenberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/model/models/heisenberg.py b/acetn/model/models/heisenberg.py
index 518dbe9..5d8454a 100644
--- a/acetn/model/models/heisenberg.py
+++ b/acetn/model/models/heisenberg.py
@@ -21,6 +21,6 @@ class HeisenbergModel(Model):
 
     def two_site_hamiltonian(self, bond):
         r"""$H_{ij} = \vec{S}_i\cdot\vec{S}_j$"""
-        J = self.params.get('J')
+        J = (self.params or {}).get('J', 1.0)
         X,Y,Z,I = pauli_matrices(self.dtype, self.device)
         return 0.25*J*(X*X + Y*Y + Z*Z)
-- 
2.43.0


From 27aa74724ca68ff37f332b180f3702e5745705e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 09/36] fix: apply and measure operators, not their transposes

Gates and observables were contracted with the transposed operator, which
for complex tensors gives e.g. <Y> = -1 in the +1 eigenstate of Y.
---
 acetn/evolution/full_update.py   | 2 +-
 acetn/evolution/simple_update.py | 6 +++---
 acetn/evolution/tensor_update.py | 4 ++--
 acetn/measurement/measure.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8b95149..f0c9fc3 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -87,7 +87,7 @@ class FullUpdater(TensorUpdater):
             The updated reduced tensors for the first and second sites.
         """
         a12g = einsum("yup,xuq->yxpq", a1r, a2r)
-        a12g = einsum("yxpq,pqrs->yxrs", a12g, gate)
+        a12g = einsum("yxpq,rspq->yxrs", a12g, gate)
 
         n12, a12g = self.precondition_norm_tensor(n12, a12g)
         a1r,a2r = ALSSolver(n12, a12g, a1r.shape, self.config).solve()
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 068beb0..58e37ed 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -45,7 +45,7 @@ class SimpleUpdater(TensorUpdater):
 
         nD, bD, pD = a1r.shape
         a12 = einsum("yup,xuq->ypxq", a1r, a2r)
-        a12g = einsum("ypxq,pqrs->yrxs", a12, self.gate[bond])
+        a12g = einsum("ypxq,rspq->yrxs", a12, self.gate[bond])
 
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
@@ -65,8 +65,8 @@ class SimpleUpdater(TensorUpdater):
         a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4)
 
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
 
         self.lambda_tensors[bond] = lambda_tensor
         self.ipeps[bond.s1]['A'] = a1
diff --git a/acetn/evolution/tensor_update.py b/acetn/evolution/tensor_update.py
index 910ff8f..c76a182 100644
--- a/acetn/evolution/tensor_update.py
+++ b/acetn/evolution/tensor_update.py
@@ -33,8 +33,8 @@ class TensorUpdater(ABC):
         a1,a2 = self.tensor_update(a1, a2, bond)
         a1,a2 = self.permute_bond_tensors(a1, a2, 4-k)
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
         return a1,a2
 
     def permute_bond_tensors(self, a1, a2, k):
diff --git a/acetn/measurement/measure.py b/acetn/measurement/measure.py
index c2753e9..dc6e0f4 100644
--- a/acetn/measurement/measure.py
+++ b/acetn/measurement/measure.py
@@ -181,7 +181,7 @@ def measure_one_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("Pp,pP->", rdm, operator).real
+    return einsum("Pp,Pp->", rdm, operator).real
 
 
 def measure_two_site(rdm, operator):
@@ -195,4 +195,4 @@ def measure_two_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("PQpq,pqPQ->", rdm, operator).real
+    return einsum("PQpq,PQpq->", rdm, operator).real
-- 
2.43.0


From 841736924fe6ca8658e138823526b560bd58699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 10/36] fix: make the simple update work for complex tensors

The bond weights are real; clamp() and einsum() rejected the mixed dtypes.
---
 acetn/evolution/lambda_tensors.py | 2 +-
 acetn/evolution/simple_update.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..52a7e79 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -42,7 +42,7 @@ class LambdaTensors:
     def strip(self, a, site, exclude_dir):
         """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
         weights = [
-            1.0 / self.get(site, d).clamp(min=self.CUTOFF) if d != exclude_dir
+            1.0 / self.get(site, d).real.clamp(min=self.CUTOFF).to(dtype=a.dtype) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 58e37ed..953eeb5 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -50,7 +50,7 @@ class SimpleUpdater(TensorUpdater):
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
         S = S[:bD]
-        lambda_tensor = sqrt(S / S.norm())
+        lambda_tensor = sqrt(S / S.norm()).to(dtype=U.dtype)
 
         U = U[:, :bD].reshape(nD, pD, bD)
         Vh = Vh[:bD, :].reshape(bD, nD, pD)
-- 
2.43.0


From 401882f58a48367433b46f919795456ea2603f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 11/36] fix: track the Y parity of sums of real Pauli operators

The sign of a product of real-valued Y operators was derived from the
concatenated keys, which is wrong when a factor is a sum, e.g. (Y*I + I*Y)*Y;
the in-place product ignored the sign altogether.
---
 acetn/model/pauli_matrix.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 5083e01..a0fddb7 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -16,7 +16,7 @@ class PauliMatrix:
         mat (torch.Tensor): The Pauli matrix or identity matrix represented as a tensor.
     """
     mat = None
-    def __init__(self, key, dtype, device, mat=None):
+    def __init__(self, key, dtype, device, mat=None, y_odd=None):
         """
         Initializes a Pauli matrix object.
 
@@ -29,8 +29,11 @@ class PauliMatrix:
             dtype (torch.dtype): The data type of the matrix (e.g., torch.float32).
             device (torch.device): The device on which the matrix should be placed (e.g., 'cpu' or 'cuda').
             mat (torch.Tensor, optional): A custom matrix to initialize the object. If None, a default Pauli matrix is created.
+            y_odd (bool, optional): Whether the terms of the operator contain an odd number of Y factors. If None, it is 
+                determined from `key`.
         """
         self.key = key
+        self.y_odd = key.count('Y') % 2 != 0 if y_odd is None else y_odd
         self.dtype = dtype
         self.device = device
         if mat is not None:
@@ -66,10 +69,11 @@ class PauliMatrix:
             phase = 1.
             if not torch.is_complex(self.mat):
                 # flip sign for even product of real-valued pauli Y matrices
-                phase = -1. if (new_key.count('Y') % 2 == 0) and (self.key.count('Y') % 2 != 0) else 1.
-            return PauliMatrix(new_key, self.dtype, self.device, mat=phase*torch.kron(self.mat, other.mat))
+                phase = -1. if self.y_odd and other.y_odd else 1.
+            return PauliMatrix(new_key, self.dtype, self.device, mat=phase*torch.kron(self.mat, other.mat),
+                               y_odd=(self.y_odd != other.y_odd))
         else:
-            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
+            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat, y_odd=self.y_odd)
 
     def __imul__(self, other):
         """
@@ -85,9 +89,9 @@ class PauliMatrix:
             PauliMatrix or torch.Tensor: A new `PauliMatrix` object (in the case of scalar) or a tensor (in the case of matrix Kronecker product).
         """
         if isinstance(other, (PauliMatrix)):
-            return torch.kron(self.mat, other.mat)
+            return (self * other).mat
         else:
-            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
+            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat, y_odd=self.y_odd)
 
     def __rmul__(self, other):
         """
@@ -101,7 +105,7 @@ class PauliMatrix:
         Returns:
             PauliMatrix: A new `PauliMatrix` object containing the scaled matrix.
         """
-        return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
+        return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat, y_odd=self.y_odd)
 
     def __add__(self, other):
         """
@@ -116,7 +120,8 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the addition.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat))
+            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat),
+                               y_odd=(self.y_odd or other.y_odd))
 
     def __sub__(self, other):
         """
@@ -131,7 +136,8 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the subtraction.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat))
+            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat),
+                               y_odd=(self.y_odd or other.y_odd))
 
     def __neg__(self):
         """
@@ -142,7 +148,7 @@ class PauliMatrix:
         Returns:
             PauliMatrix: A new `PauliMatrix` object containing the negated matrix.
         """
-        return PauliMatrix(self.key, self.dtype, self.device, mat=-self.mat)
+        return PauliMatrix(self.key, self.dtype, self.device, mat=-self.mat, y_odd=self.y_odd)
 
     def __truediv__(self, scalar):
         """
@@ -156,7 +162,7 @@ class PauliMatrix:
         Returns:
             PauliMatrix: A new `PauliMatrix` object containing the result of the division.
         """
-        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat/scalar)
+        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat/scalar, y_odd=self.y_odd)
 
 
 def pauli_matrices(dtype, device):
-- 
2.43.0


From 8c344bc7bf3f13a1002298345b8c54db8c785a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 12/36] fix: do not share config dictionaries between Ipeps
 instances and the caller

set_chi() and set_model_params() wrote into the dictionaries passed by the
user, and thereby into every other Ipeps (or copy) made from them.
set_model_params() also works when no params were configured.
---
 acetn/ipeps/ipeps.py          | 5 ++++-
 acetn/ipeps/ipeps_config.py   | 5 ++++-
 acetn/ipeps/tensor_network.py | 5 +++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index d0de9b5..8bc35ce 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -1,4 +1,5 @@
 import torch
+from copy import copy
 from tqdm import tqdm
 from .ipeps_config import IpepsConfig
 from .tensor_network import TensorNetwork
@@ -77,7 +78,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = copy(params)
 
     def set_model_params(self, **kwargs):
         """
@@ -86,6 +87,8 @@ class Ipeps(TensorNetwork):
         Args:
             `**kwargs`: Key-value pairs of model parameters to update.
         """
+        if self.config.model.params is None:
+            self.config.model.params = {}
         for key,val in kwargs.items():
             self.config.model.params[key] = val
             tqdm.write(f"Model parameter set: {key}={val}")
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..459949e 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -1,5 +1,6 @@
 import torch
 import os
+from copy import copy, deepcopy
 from dataclasses import dataclass, field
 from typing import Dict, Union, Literal
 from tqdm import tqdm
@@ -57,7 +58,8 @@ class IpepsConfig:
     def __post_init__(self):
         self.set_dtype(self.dtype)
         self.set_device(self.device)
-        self.TN = TNConfig(**self.TN)
+        # copy so that set_chi and set_model_params do not write into the caller's dictionary
+        self.TN = TNConfig(**deepcopy(self.TN))
         self.ctmrg = CTMRGConfig(**self.ctmrg)
         self.evolution = EvolutionConfig(**self.evolution)
         self.validate_backend()
@@ -65,6 +67,7 @@ class IpepsConfig:
                            device=self.device,
                            dim=self.TN.dims['phys'],
                            **self.model)
+        self.model.params = copy(self.model.params)
         # disable tqdm progress bar in SLURM environment
         self.disable_pbar_if_slurm()
 
diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index dda958c..81594a4 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,4 +1,5 @@
 import torch
+from copy import deepcopy
 from .site_tensor import SiteTensor
 from .bond import Bond
 
@@ -74,7 +75,7 @@ class TensorNetwork:
         Returns:
             TensorNetwork: A new `TensorNetwork` with identical contents and metadata.
         """
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=self.dtype, device=self.device)
+        return TensorNetwork(tensor_network=self, config=deepcopy(self.tn_config), dtype=self.dtype, device=self.device)
 
     def to(self, dtype=None, device=None):
         """
@@ -89,7 +90,7 @@ class TensorNetwork:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=dtype, device=device)
+        return TensorNetwork(tensor_network=self, config=deepcopy(self.tn_config), dtype=dtype, device=device)
 
     def save(self, filename='ipeps.pt'):
         """
-- 
2.43.0


From 56b7f43342f67c94b822d667a169db191cafee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 13/36] fix: keep the model class set on one Ipeps from
 replacing another's

set_model() without a name registers the class globally as "custom", so the
last Ipeps to set a custom model decided the model of all of them.
---
 acetn/ipeps/ipeps.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 8bc35ce..13aabdd 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -36,6 +36,7 @@ class Ipeps(TensorNetwork):
         self.config = IpepsConfig(**config)
         self.dtype = self.config.dtype
         self.device = self.config.device
+        self.model_registration = (None, None)
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
@@ -77,9 +78,23 @@ class Ipeps(TensorNetwork):
         """
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
+        self.model_registration = (name, model_cls)
         self.config.model.name = name
         self.config.model.params = copy(params)
 
+    def create_model(self):
+        """
+        Create the model set for this Ipeps. A class set by `set_model` takes precedence over one
+        that was registered under the same name for another Ipeps.
+
+        Returns:
+            Model: The model instance.
+        """
+        name, model_cls = self.model_registration
+        if name is not None and name == self.config.model.name:
+            return model_cls(self.config.model)
+        return model_factory.create(self.config.model)
+
     def set_model_params(self, **kwargs):
         """
         Update model parameters.
@@ -109,7 +124,7 @@ class Ipeps(TensorNetwork):
             steps (int): Number of evolution steps.
             model (optional): Custom model instance to use.
         """
-        model = model_factory.create(self.config.model) if model is None else model
+        model = self.create_model() if model is None else model
         if not self.site_states_initialized:
             self.initialize_site_tensors(model.initial_site_state)
         log_evolve_start_message(dtau, self.dims, model)
@@ -127,5 +142,5 @@ class Ipeps(TensorNetwork):
         Returns:
             dict: Measurement results.
         """
-        model = model_factory.create(self.config.model) if model is None else model
+        model = self.create_model() if model is None else model
         return measure(self, model)
-- 
2.43.0


From f8553e2a3eb2d7c241c5edc18520fa715540c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 14/36] fix: let positive_approx terminate when its shift is
 lost to rounding

If the smallest eigenvalue stays below the cutoff because the shift is smaller
than the rounding error of the norm tensor, the loop repeated the same shift
forever (seen in float32, and in float64 for large norms).
---
 acetn/evolution/full_update.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index f0c9fc3..38809f4 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -285,8 +285,11 @@ def positive_approx(n12, cutoff=1e-12):
         nz,nw,_ = svd(N)
         nw = torch.flip(nw, dims=[-1])
         nz = torch.flip(nz, dims=[-1])
+    shift = 0
     while nw[0] < cutoff:
-        N += 2*max(cutoff, abs(nw[0]))*torch.eye(nD**2, dtype=N.dtype, device=N.device)
+        # at least double the shift, a shift below the rounding error of N has no effect
+        shift = 2*max(cutoff, abs(nw[0]), shift)
+        N += shift*torch.eye(nD**2, dtype=N.dtype, device=N.device)
         try:
             nw,nz = eigh(N)
         except torch._C._LinAlgError:
-- 
2.43.0


From 815f751662805ce22c738d59dc6f9b1717bbc331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 15/36] fix: make the distributed CTMRG moves work on CPU and
 for any world size

Ranks were used as cuda device ids, gloo rejected projectors of unequal rank,
and for some world sizes and unit cells rows were skipped (KeyError) or a rank
had no projector to gather (UnboundLocalError).
---
 acetn/renormalization/directional_mover.py | 50 +++++++++++-----------
 acetn/utils/distributed.py                 | 18 ++++----
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..19b99ea 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -192,24 +192,23 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
+        for y_shift in range(0, ipeps.ny, ws//2):
+            # ranks without an index of their own repeat the last one, as all ranks have to join the gather
             if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+                yi = min(rank + y_shift, ipeps.ny-1)
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                yi = min(rank - ws//2 + y_shift, ipeps.ny-1)
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+            for yi in range(min(ws//2, ipeps.ny - y_shift)):
+                proj1l[yi + y_shift] = proj1_all[yi]
+                proj2l[yi + y_shift] = proj2_all[yi]
+                proj1r[yi + y_shift] = proj1_all[yi + ws//2]
+                proj2r[yi + y_shift] = proj2_all[yi + ws//2]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -237,24 +236,23 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
+        for x_shift in range(0, ipeps.nx, ws//2):
+            # ranks without an index of their own repeat the last one, as all ranks have to join the gather
             if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+                xi = min(rank + x_shift, ipeps.nx-1)
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                xi = min(rank - ws//2 + x_shift, ipeps.nx-1)
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+            for xi in range(min(ws//2, ipeps.nx - x_shift)):
+                proj1u[xi + x_shift] = proj1_all[xi]
+                proj2u[xi + x_shift] = proj2_all[xi]
+                proj1d[xi + x_shift] = proj1_all[xi + ws//2]
+                proj2d[xi + x_shift] = proj2_all[xi + ws//2]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..8ade56b 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -96,13 +96,13 @@ def all_gather_tensor(tensor, rank, ws):
     """
     # gather shapes
     tensor_shape = torch.tensor(list(tensor.shape), dtype=int, device=tensor.device)
-    tensor_all_shapes = [torch.empty(4, dtype=int, device=tensor.device) for _ in range(ws)]
+    tensor_all_shapes = [torch.empty_like(tensor_shape) for _ in range(ws)]
     dist.all_gather(tensor_all_shapes, tensor_shape)
-    # gather tensors
-    tensor_all = []
-    for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
-        tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
-        tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
-    return tensor_all
\ No newline at end of file
+    tensor_all_shapes = [torch.Size(shape.tolist()) for shape in tensor_all_shapes]
+    # gather tensors, padded to equal size since gloo does not support uneven sizes
+    max_size = max(shape.numel() for shape in tensor_all_shapes)
+    tensor_pad = torch.zeros(max_size, dtype=tensor.dtype, device=tensor.device)
+    tensor_pad[:tensor.numel()] = tensor.flatten()
+    tensor_all = [torch.empty_like(tensor_pad) for _ in range(ws)]
+    dist.all_gather(tensor_all, tensor_pad)
+    return [buf[:shape.numel()].view(shape) for buf, shape in zip(tensor_all, tensor_all_shapes)]
-- 
2.43.0


From 7c98273a3d9b1a8514686be10479bdade8e6bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 16/36] fix: start all ranks of a distributed run from the same
 tensors

Every rank added its own random noise to the initial site tensors, so the
ranks renormalized and measured different states.
---
 acetn/ipeps/ipeps.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 13aabdd..2ea9de3 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -57,6 +57,23 @@ class Ipeps(TensorNetwork):
         self.rank, self.world_size, self.device, self.is_distributed \
             = setup_distributed(self.device)
 
+    def initialize_site_tensors(self, site_state_map):
+        """
+        Initialize the tensors of all sites. The tensors contain random noise, so in a distributed
+        run all ranks use those of rank 0.
+
+        Args:
+            site_state_map (callable): Function returning the initial state of a site.
+        """
+        super().initialize_site_tensors(site_state_map)
+        if self.is_distributed:
+            for site in self.site_list:
+                site_tensor = self[site]['A'].contiguous()
+                dist.broadcast(site_tensor, src=0)
+                self[site]['A'] = site_tensor
+                self[site].initialize_corner_tensors()
+                self[site].initialize_edge_tensors()
+
     def set_chi(self, chi):
         """
         Set the boundary bond dimension chi.
-- 
2.43.0


From 5b128a5f35bbdc963e7dbfa509a5520c215d0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 17/36] fix: keep the process group alive while an Ipeps still
 uses it

Deleting any Ipeps (e.g. the one a new simulation was initialized from)
destroyed the process group under all others.
---
 acetn/utils/distributed.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 8ade56b..5f3e4fe 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -6,6 +6,10 @@ from tqdm import tqdm
 from torch.distributed.elastic.multiprocessing.errors import record
 
 
+# number of live objects using the process group
+num_users = 0
+
+
 @record
 def setup_distributed(device):
     """
@@ -29,6 +33,8 @@ def setup_distributed(device):
             raise RuntimeError(
                 f"{world_size} devices requested but only {device_count} available")
         device = setup_process_group(rank, world_size, device)
+        global num_users
+        num_users += 1
 
     return rank, world_size, device, is_distributed
 
@@ -76,9 +82,12 @@ def setup_distributed_print(rank):
 
 def finalize_distributed():
     """
-    Finalizes the distributed environment and cleans up resources.
+    Finalizes the distributed environment and cleans up resources, once for
+    every successful setup_distributed. The last call destroys the process group.
     """
-    if dist.is_initialized():
+    global num_users
+    num_users -= 1
+    if num_users <= 0 and dist.is_initialized():
         dist.destroy_process_group()
 
 
-- 
2.43.0


From 33038f7e710ab7654105828ecdf9a95e20cec400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 18/36] fix: fall back to LU in the cuTENSOR backend if
 Cholesky fails

cholesky_solve ignored the factorization's info and solved with a partial
factor, while the torch backend falls back to a general solve.
---
 csrc/linalg/cholesky_solve.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csrc/linalg/cholesky_solve.h b/csrc/linalg/cholesky_solve.h
index 8f2e78f..3489145 100644
--- a/csrc/linalg/cholesky_solve.h
+++ b/csrc/linalg/cholesky_solve.h
@@ -104,6 +104,10 @@ torch::Tensor cholesky_solve_impl(torch::Tensor A, torch::Tensor B) {
     auto info_ptr = devInfo.data_ptr<int>();
 
     CUSOLVER_CHECK(potrf(handle, CUBLAS_FILL_MODE_LOWER, n, A_ptr, n, work_ptr, lwork, info_ptr));
+    if (devInfo.item<int>() != 0) {
+        // A is not positive definite: fall back to LU like the torch backend
+        return torch::linalg_solve(A, B).contiguous();
+    }
     CUSOLVER_CHECK(potrs(handle, CUBLAS_FILL_MODE_LOWER, n, nrhs, A_ptr, n, B_ptr, n, info_ptr));
 
     return B_.contiguous();
-- 
2.43.0


From 269e72b93275107b37a53fae7a1b27013a9c06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 19/36] fix: make the measurement modules importable on their
 own

---
 acetn/measurement/rdm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acetn/measurement/rdm.py b/acetn/measurement/rdm.py
index 68a0902..a8e88dc 100644
--- a/acetn/measurement/rdm.py
+++ b/acetn/measurement/rdm.py
@@ -1,7 +1,6 @@
 import torch
 from torch import einsum,conj
 from math import ceil
-from ..ipeps.bond import Bond
 
 class RDM:
     """
@@ -28,6 +27,8 @@ class RDM:
         Returns:
             torch.Tensor: The reduced density matrix corresponding to the provided indices (site or bond).
         """
+        # imported here since the ipeps package itself imports this module
+        from ..ipeps.bond import Bond
         if isinstance(key, Bond):
             return self.build_bond_rdm(key)
         return self.build_site_rdm(key)
-- 
2.43.0


From e7dae49e680e514f570dc99bebf47cbeb86f5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 20/36] fix: start an evolution of a model without parameters

---
 acetn/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/utils/logger.py b/acetn/utils/logger.py
index 1003731..a12d8ff 100644
--- a/acetn/utils/logger.py
+++ b/acetn/utils/logger.py
@@ -77,4 +77,4 @@ def log_evolve_start_message(dtau, dims, model):
     tqdm.write("Bond dimensions:")
     tqdm.write(f"(D, chi): ({dims['bond']}, {dims['chi']})")
     tqdm.write("Model parameters:")
-    tqdm.write('\n'.join(f"{key}: {value}" for key, value in model.params.items()))
+    tqdm.write('\n'.join(f"{key}: {value}" for key, value in (model.params or {}).items()))
-- 
2.43.0


From 7c63449d66b77d086ed0bdb441d71b5b93bbcff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 21/36] fix: use the default of every dimension missing in the
 config

---
 acetn/ipeps/ipeps_config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 459949e..29e016d 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -14,6 +14,10 @@ class TNConfig:
     dims: Dict[str, int] = field(
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
+    def __post_init__(self):
+        # every dimension that is left out has its own default
+        self.dims = {'phys': 2, 'bond': 2, 'chi': 20, **self.dims}
+
 @dataclass
 class CTMRGConfig:
     steps: int = 40
-- 
2.43.0


From fd6cff0285a74625c49625b4df07445ce8f22d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 22/36] fix: reject unknown SVD types, ALS methods and backends

---
 acetn/evolution/als_solver.py       | 2 ++
 acetn/ipeps/ipeps_config.py         | 2 ++
 acetn/renormalization/projectors.py | 4 +++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index 200b1ab..dd85e56 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -227,6 +227,8 @@ class ALSSolver:
             case "pinv":
                 R_inv = pinv(R, hermitian=True, rcond=self.epsilon)
                 ar = R_inv @ S
+            case _:
+                raise ValueError(f"Invalid ALS method: {self.method} provided.")
         return ar.reshape(nD, bD, pD)
 
     @staticmethod
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 29e016d..87a6ec3 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -109,6 +109,8 @@ class IpepsConfig:
 
     def validate_backend(self):
         """Validate evolution backend and fallback if necessary."""
+        if self.evolution.backend not in ("torch", "cutensor"):
+            raise ValueError(f"Invalid evolution backend: {self.evolution.backend} provided.")
         if self.evolution.backend == "cutensor" and not CUTENSOR_AVAILABLE:
             tqdm.write("cuTENSOR backend requested but extension not available")
             tqdm.write("Build with: ACETN_BUILD_CUTENSOR=1 pip install .")
diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 28bd3c2..e245873 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -23,8 +23,10 @@ class ProjectorCalculator:
         Sets the `calculate` method based on the projector type.
         
         Raises:
-            ValueError: If projector type is invalid.
+            ValueError: If projector type or SVD type is invalid.
         """
+        if self.svd_type not in ("rsvd", "full-rank"):
+            raise ValueError(f"Invalid ctmrg SVD type: {self.svd_type} provided.")
         if self.projectors is None or self.projectors == "full-system":
             self.calculate = self.calculate_full_system
         elif self.projectors == "half-system":
-- 
2.43.0


From 452059bf4d48773b0e38344aa909f465101bee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 23/36] fix: keep rounding noise of rank-deficient bonds out of
 the simple update

---
 acetn/evolution/lambda_tensors.py | 13 +++++++++++--
 acetn/evolution/simple_update.py  |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index 52a7e79..f6a2cf9 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -39,10 +39,19 @@ class LambdaTensors:
         ]
         return einsum("l,u,r,d,lurdp->lurdp", *weights, a)
 
+    @classmethod
+    def pseudo_inverse(cls, weights):
+        """Reciprocal of the weights, and zero where a weight vanishes."""
+        kept = weights.real > cls.CUTOFF
+        return torch.where(kept, 1.0 / weights, torch.zeros_like(weights))
+
     def strip(self, a, site, exclude_dir):
-        """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
+        """Divide out lambda from all legs of a site tensor except ``exclude_dir``.
+
+        Legs of vanishing weight (see ``SimpleUpdater.bond_update``) stay zero.
+        """
         weights = [
-            1.0 / self.get(site, d).real.clamp(min=self.CUTOFF).to(dtype=a.dtype) if d != exclude_dir
+            self.pseudo_inverse(self.get(site, d)) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 953eeb5..3f20694 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -1,5 +1,5 @@
 import time
-from torch import einsum, sqrt
+from torch import einsum, sqrt, finfo
 from torch.linalg import svd
 from ..evolution.tensor_update import TensorUpdater
 from ..evolution.lambda_tensors import LambdaTensors
@@ -50,6 +50,9 @@ class SimpleUpdater(TensorUpdater):
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
         S = S[:bD]
+        # Singular values of a rank-deficient bond are rounding noise, which
+        # stripping would blow up: give these directions no weight at all.
+        S = S * (S > S[0] * finfo(S.dtype).eps**0.75)
         lambda_tensor = sqrt(S / S.norm()).to(dtype=U.dtype)
 
         U = U[:, :bD].reshape(nD, pD, bD)
-- 
2.43.0


From b20b947c893b88e420a5f4c9c7a4f8649e5bc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 24/36] fix: make the norm tensor of a bond positive whatever
 the sign of the boundary tensors

---
 acetn/evolution/full_update.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 38809f4..eda941b 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -202,8 +202,15 @@ def build_norm_tensor(ipeps, bond, a1q, a2q):
     c24 = ipeps[s2]['C'][(k+3)%4]
     e23 = ipeps[s2]['E'][(k+2)%4]
 
-    return build_norm_tensor_core(c12, e12, e11, c13, e13, a1q,
-                                  c21, e21, e24, c24, e23, a2q)
+    n12 = build_norm_tensor_core(c12, e12, e11, c13, e13, a1q,
+                                 c21, e21, e24, c24, e23, a2q)
+
+    # The boundary tensors are determined up to a sign or phase only, while the norm
+    # has to be positive.
+    trace = einsum("yxyx->", n12)
+    if trace.abs() > 0:
+        n12 = n12*(conj(trace)/trace.abs())
+    return n12
 
 
 def build_norm_tensor_core(c12, e12, e11, c13, e13, a1q,
-- 
2.43.0


From 9b8ba0e2e304e18962db0cb9b0ca90b9c3dedf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 25/36] fix: keep the ALS regularization above the rounding
 error of the dtype

---
 acetn/evolution/als_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index dd85e56..df61b1f 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -25,7 +25,9 @@ class ALSSolver:
         self.niter   = config.als_niter
         self.tol     = config.als_tol
         self.method  = config.als_method
-        self.epsilon = config.als_epsilon
+        # a regularization below the rounding error of the linear system has no effect
+        nD,bD,_ = ar_shape
+        self.epsilon = max(config.als_epsilon, nD*bD*torch.finfo(n12.dtype).eps)
         self.backend = config.backend
         self.n12 = n12
         self.a12g = a12g
-- 
2.43.0


From ff71d2e241fc4d782f007fd337e36b39586d336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 26/36] fix: continue with the saved bond order after loading

---
 acetn/ipeps/tensor_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 81594a4..1d44ccd 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -119,6 +119,8 @@ class TensorNetwork:
         tn_cpu = state_dict['tensors']
         for site, site_tensor in tn_cpu.items():
             self[site] = site_tensor.to(self.dtype, self.device)
+        # evolving reverses the order of the bonds, continue where the saved network stopped
+        self.bond_list = [Bond(*bond) for bond in state_dict['tensor_network'].bond_list]
         self.site_states_initialized = True
 
     def setup_tensor_network(self, tensor_network):
-- 
2.43.0


From fb21e27e4d17d212af367ca5b357807130f48296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 27/36] fix: keep the model of an Ipeps when another one sets a
 model of the same name

---
 acetn/ipeps/ipeps.py         | 13 +++++++------
 acetn/model/model_factory.py | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 2ea9de3..ed7c950 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -36,7 +36,7 @@ class Ipeps(TensorNetwork):
         self.config = IpepsConfig(**config)
         self.dtype = self.config.dtype
         self.device = self.config.device
-        self.model_registration = (None, None)
+        self.model_registration = (self.config.model.name, model_factory.get_class(self.config.model.name))
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
@@ -86,7 +86,8 @@ class Ipeps(TensorNetwork):
 
     def set_model(self, model_cls, params, name=None):
         """
-        Register and set a model for simulation.
+        Register and set a model for simulation. The name of a built-in model can be used, which
+        then means the given class in this Ipeps only.
 
         Args:
             model_cls (type): Model class to register.
@@ -94,21 +95,21 @@ class Ipeps(TensorNetwork):
             name (str, optional): Name for the custom model.
         """
         name = "custom" if name is None else name.lower()
-        model_factory.register(name, model_cls)
+        model_factory.register(name, model_cls, replace_builtin=False)
         self.model_registration = (name, model_cls)
         self.config.model.name = name
         self.config.model.params = copy(params)
 
     def create_model(self):
         """
-        Create the model set for this Ipeps. A class set by `set_model` takes precedence over one
-        that was registered under the same name for another Ipeps.
+        Create the model set for this Ipeps. The class set by `set_model`, or else the one registered when 
+        this Ipeps was created, takes precedence over one registered under the same name for another Ipeps.
 
         Returns:
             Model: The model instance.
         """
         name, model_cls = self.model_registration
-        if name is not None and name == self.config.model.name:
+        if model_cls is not None and name == self.config.model.name:
             return model_cls(self.config.model)
         return model_factory.create(self.config.model)
 
diff --git a/acetn/model/model_factory.py b/acetn/model/model_factory.py
index 1f6c703..32ba120 100644
--- a/acetn/model/model_factory.py
+++ b/acetn/model/model_factory.py
@@ -22,9 +22,9 @@ class ModelFactory:
         Returns:
             None
         """
-        self._models = models
+        self._models = dict(models)
 
-    def register(self, name, cls):
+    def register(self, name, cls, replace_builtin=True):
         """
         Registers a new model class under a given name.
 
@@ -34,6 +34,7 @@ class ModelFactory:
         Args:
             name (str): The name associated with the model class.
             cls (type): The model class that is to be registered.
+            replace_builtin (bool, optional): Whether the class may replace a built-in model.
 
         Raises:
             TypeError: If the provided class does not inherit from the `Model` base class.
@@ -43,7 +44,8 @@ class ModelFactory:
         """
         if not issubclass(cls, Model):
             raise TypeError("Model class must inherit from Model base class")
-        self._models[name] = cls
+        if replace_builtin or name not in models:
+            self._models[name] = cls
 
     def create(self, config):
         """
@@ -69,6 +71,18 @@ class ModelFactory:
         else:
             return self._models[config.name](config)
 
+    def get_class(self, name):
+        """
+        Returns the model class currently registered under a name.
+
+        Args:
+            name (str): The name of the model.
+
+        Returns:
+            type or None: The model class, or None if no model of this name is registered.
+        """
+        return self._models.get(name)
+
     def list_registered(self):
         """
         Lists all the registered model names.
-- 
2.43.0


From 741fa6c77842a0a6f4169304da388e0d9cb08d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 28/36] fix: give a copied site tensor its own dimensions

---
 acetn/ipeps/site_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/site_tensor.py b/acetn/ipeps/site_tensor.py
index 1a61723..efef28f 100644
--- a/acetn/ipeps/site_tensor.py
+++ b/acetn/ipeps/site_tensor.py
@@ -100,7 +100,7 @@ class SiteTensor:
         Returns:
             SiteTensor: A new `SiteTensor` with identical contents and metadata.
         """
-        return SiteTensor(dims=self.dims, site_tensor=self, dtype=self.dtype, device=self.device)
+        return SiteTensor(dims=dict(self.dims), site_tensor=self, dtype=self.dtype, device=self.device)
 
     def to(self, dtype=None, device=None):
         """
@@ -115,7 +115,7 @@ class SiteTensor:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return SiteTensor(dims=self.dims, site_tensor=self, dtype=dtype, device=device)
+        return SiteTensor(dims=dict(self.dims), site_tensor=self, dtype=dtype, device=device)
 
     def initialize_site_tensor(self, site_state=[1.,], noise=0.0):
         """
-- 
2.43.0


From 172c69896878647f72f9fb009d362eca854df148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 29/36] fix: destroy the cuTENSOR objects of a plan that is
 replaced or fails

---
 csrc/linalg/contraction.h | 73 +++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/csrc/linalg/contraction.h b/csrc/linalg/contraction.h
index 8ed333e..5277f43 100644
--- a/csrc/linalg/contraction.h
+++ b/csrc/linalg/contraction.h
@@ -93,6 +93,27 @@ private:
   cutensorHandle_t handle_;
 };
 
+// Owner of a cuTENSOR object that is only needed while a plan is made
+template<typename Object, cutensorStatus_t (*Destroy)(Object)>
+class CutensorGuard {
+public:
+  CutensorGuard() = default;
+  ~CutensorGuard() {
+    if (object_) {
+      Destroy(object_);
+    }
+  }
+  Object* put() { return &object_; }
+  Object get() const { return object_; }
+  CutensorGuard(const CutensorGuard&) = delete;
+  CutensorGuard& operator=(const CutensorGuard&) = delete;
+private:
+  Object object_ = nullptr;
+};
+
+using TensorDescriptorGuard = CutensorGuard<cutensorTensorDescriptor_t, cutensorDestroyTensorDescriptor>;
+using PlanPreferenceGuard = CutensorGuard<cutensorPlanPreference_t, cutensorDestroyPlanPreference>;
+
 class ContractionBase {
 public:
     virtual ~ContractionBase() = default;
@@ -219,12 +240,7 @@ public:
     }
 
     ~Contraction() {
-        if (isInitialized_ && plan_) { 
-            cutensorDestroyPlan(plan_); 
-        }
-        if (opDesc_) {
-            cutensorDestroyOperationDescriptor(opDesc_);
-        }
+        release();
     }
 
     bool isInitialized() const override { return isInitialized_; }
@@ -233,6 +249,7 @@ public:
 
     bool plan(cutensorHandle_t handle,
               cutensorWorksizePreference_t workspacePref = CUTENSOR_WORKSPACE_DEFAULT) override {
+        release();
         parseEinsumExpression(einsum_expr_, extentA_, extentB_, extentC_, modeA_, modeB_, modeC_);
         numModesC_ = extentC_.size();
         strideC_ = compute_row_major_strides(extentC_);
@@ -241,38 +258,33 @@ public:
         cutensorDataType_t const dataType = CuTensorTypeTraits<ComputeType>::getDataType();
         uint32_t const alignment = 128;
 
-        cutensorTensorDescriptor_t descA = nullptr;
+        TensorDescriptorGuard descA;
         CUTENSOR_CHECK(cutensorCreateTensorDescriptor(
-            handle, &descA, numModesA_, extentA_.data(), strideA_.data(), dataType, alignment));
+            handle, descA.put(), numModesA_, extentA_.data(), strideA_.data(), dataType, alignment));
 
-        cutensorTensorDescriptor_t descB = nullptr;
+        TensorDescriptorGuard descB;
         CUTENSOR_CHECK(cutensorCreateTensorDescriptor(
-            handle, &descB, numModesB_, extentB_.data(), strideB_.data(), dataType, alignment));
+            handle, descB.put(), numModesB_, extentB_.data(), strideB_.data(), dataType, alignment));
 
-        cutensorTensorDescriptor_t descC = nullptr;
+        TensorDescriptorGuard descC;
         CUTENSOR_CHECK(cutensorCreateTensorDescriptor(
-            handle, &descC, numModesC_, extentC_.data(), strideC_.data(), dataType, alignment));
+            handle, descC.put(), numModesC_, extentC_.data(), strideC_.data(), dataType, alignment));
 
         CUTENSOR_CHECK(cutensorCreateContraction(handle, &opDesc_,
-            descA, modeA_.data(), opA_,
-            descB, modeB_.data(), opB_,
-            descC, modeC_.data(), CUTENSOR_OP_IDENTITY,
-            descC, modeC_.data(), computeDesc_));
+            descA.get(), modeA_.data(), opA_,
+            descB.get(), modeB_.data(), opB_,
+            descC.get(), modeC_.data(), CUTENSOR_OP_IDENTITY,
+            descC.get(), modeC_.data(), computeDesc_));
 
-        cutensorPlanPreference_t planPreference;
-        CUTENSOR_CHECK(cutensorCreatePlanPreference(handle, &planPreference, CUTENSOR_ALGO_TTGT, CUTENSOR_JIT_MODE_NONE));
+        PlanPreferenceGuard planPreference;
+        CUTENSOR_CHECK(cutensorCreatePlanPreference(handle, planPreference.put(), CUTENSOR_ALGO_TTGT, CUTENSOR_JIT_MODE_NONE));
 
         uint64_t workspaceEstimate = 0;
-        CUTENSOR_CHECK(cutensorEstimateWorkspaceSize(handle, opDesc_, planPreference, workspacePref, &workspaceEstimate));
+        CUTENSOR_CHECK(cutensorEstimateWorkspaceSize(handle, opDesc_, planPreference.get(), workspacePref, &workspaceEstimate));
 
-        CUTENSOR_CHECK(cutensorCreatePlan(handle, &plan_, opDesc_, planPreference, workspaceEstimate));
-        CUTENSOR_CHECK(cutensorDestroyPlanPreference(planPreference));
+        CUTENSOR_CHECK(cutensorCreatePlan(handle, &plan_, opDesc_, planPreference.get(), workspaceEstimate));
         CUTENSOR_CHECK(cutensorPlanGetAttribute(handle, plan_, CUTENSOR_PLAN_REQUIRED_WORKSPACE, &workspaceSize_, sizeof(workspaceSize_)));
 
-        CUTENSOR_CHECK(cutensorDestroyTensorDescriptor(descA));
-        CUTENSOR_CHECK(cutensorDestroyTensorDescriptor(descB));
-        CUTENSOR_CHECK(cutensorDestroyTensorDescriptor(descC));
-
         return true;
     }
 
@@ -295,6 +307,17 @@ public:
     }
 
 private:
+    void release() {
+        if (plan_) {
+            cutensorDestroyPlan(plan_);
+            plan_ = nullptr;
+        }
+        if (opDesc_) {
+            cutensorDestroyOperationDescriptor(opDesc_);
+            opDesc_ = nullptr;
+        }
+    }
+
     cutensorPlan_t plan_;
     cutensorOperationDescriptor_t opDesc_;
     cutensorComputeDescriptor_t computeDesc_;
-- 
2.43.0


From 4efc84178d66cdde16c043d648f32233dd8d310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 30/36] fix: hand resolved and aligned tensors to cuTENSOR

---
 csrc/evolution/als_solve.cpp | 19 +++++++++++++------
 csrc/linalg/contraction.h    | 10 ++++++----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/csrc/evolution/als_solve.cpp b/csrc/evolution/als_solve.cpp
index d6259e2..ccad201 100644
--- a/csrc/evolution/als_solve.cpp
+++ b/csrc/evolution/als_solve.cpp
@@ -104,6 +104,14 @@ std::tuple<Tensor, Tensor> als_solve_impl(
     return std::make_tuple(als_tensors.get_a1r(), als_tensors.get_a2r());
 }
 
+// cuTENSOR reads the raw memory: the values have to be stored in it as they
+// are, contiguous and aligned
+inline Tensor prepare_input(Tensor A) {
+    A = A.resolve_conj().resolve_neg().contiguous();
+    bool aligned = reinterpret_cast<uintptr_t>(A.data_ptr()) % tensor_alignment == 0;
+    return aligned ? A : A.clone();
+}
+
 std::tuple<Tensor, Tensor> als_solve(
     Tensor a1r,
     Tensor a2r,
@@ -115,12 +123,11 @@ std::tuple<Tensor, Tensor> als_solve(
     const std::string& method,
     double epsilon) {
 
-    // Ensure contiguous memory layout for cuTENSOR
-    a1r = a1r.contiguous();
-    a2r = a2r.contiguous();
-    n12g = n12g.contiguous();
-    n12 = n12.contiguous();
-    a12g = a12g.contiguous();
+    a1r = prepare_input(a1r);
+    a2r = prepare_input(a2r);
+    n12g = prepare_input(n12g);
+    n12 = prepare_input(n12);
+    a12g = prepare_input(a12g);
 
     SolverMethod solver_method = parse_solver_method(method);
     auto real_dtype = a1r.is_complex() ? c10::toRealValueType(a1r.scalar_type()) : a1r.scalar_type();
diff --git a/csrc/linalg/contraction.h b/csrc/linalg/contraction.h
index 5277f43..b987951 100644
--- a/csrc/linalg/contraction.h
+++ b/csrc/linalg/contraction.h
@@ -22,6 +22,9 @@ using torch::Tensor;
     } \
 }
 
+// Alignment in bytes of the tensors that plans are made for
+constexpr uint32_t tensor_alignment = 128;
+
 template<typename T>
 struct CuTensorTypeTraits;
 
@@ -256,19 +259,18 @@ public:
         isInitialized_ = true;
 
         cutensorDataType_t const dataType = CuTensorTypeTraits<ComputeType>::getDataType();
-        uint32_t const alignment = 128;
 
         TensorDescriptorGuard descA;
         CUTENSOR_CHECK(cutensorCreateTensorDescriptor(
-            handle, descA.put(), numModesA_, extentA_.data(), strideA_.data(), dataType, alignment));
+            handle, descA.put(), numModesA_, extentA_.data(), strideA_.data(), dataType, tensor_alignment));
 
         TensorDescriptorGuard descB;
         CUTENSOR_CHECK(cutensorCreateTensorDescriptor(
-            handle, descB.put(), numModesB_, extentB_.data(), strideB_.data(), dataType, alignment));
+            handle, descB.put(), numModesB_, extentB_.data(), strideB_.data(), dataType, tensor_alignment));
 
         TensorDescriptorGuard descC;
         CUTENSOR_CHECK(cutensorCreateTensorDescriptor(
-            handle, descC.put(), numModesC_, extentC_.data(), strideC_.data(), dataType, alignment));
+            handle, descC.put(), numModesC_, extentC_.data(), strideC_.data(), dataType, tensor_alignment));
 
         CUTENSOR_CHECK(cutensorCreateContraction(handle, &opDesc_,
             descA.get(), modeA_.data(), opA_,
-- 
2.43.0


From 018518624ebe5308048aa9a616eda79fd677d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 31/36] fix: fall back to CPU for every unavailable CUDA
 device, also with an index

---
 acetn/ipeps/ipeps_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 87a6ec3..2dd1625 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -102,7 +102,7 @@ class IpepsConfig:
         elif isinstance(device, torch.device):
             self.device = device
         # Use cpu if device=cuda is set in config but cuda is not available
-        if self.device == torch.device("cuda") and not torch.cuda.is_available():
+        if self.device.type == "cuda" and not torch.cuda.is_available():
             tqdm.write("Torch not compiled with CUDA enabled")
             tqdm.write("Using device='cpu'")
             self.device = torch.device("cpu")
-- 
2.43.0


From 56c5b9158bd475ee2584b8fd0ee3c5945a2d2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 32/36] fix: keep a disabled progress bar disabled in
 interactive SLURM jobs

---
 acetn/ipeps/ipeps_config.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 2dd1625..f4f246e 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -80,12 +80,9 @@ class IpepsConfig:
             # enable if interactive job
             job_name = os.getenv('SLURM_JOB_NAME', '')
             job_partition = os.getenv('SLURM_JOB_PARTITION', '')
-            if 'interactive' in job_name or job_partition == 'interactive':
-                disable_pbar = False
-            else:
-                disable_pbar = True
-            self.ctmrg.disable_progressbar = disable_pbar
-            self.evolution.disable_progressbar = disable_pbar
+            if not ('interactive' in job_name or job_partition == 'interactive'):
+                self.ctmrg.disable_progressbar = True
+                self.evolution.disable_progressbar = True
 
     def set_dtype(self, dtype):
         """Set the dtype to either the provided value or a default."""
-- 
2.43.0


From a3449129b859e83090e53d476321903441d1e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 33/36] fix: randomized SVDs no longer fail on complex matrices
 with very small entries

LAPACK's complex QR returns NaN for entries close to the smallest normal
number, which the power iteration produces for graded matrices such as
those of nearly product states, in complex64 already for entries of 1e-10.
---
 acetn/linalg/fused_3matmul_svd_lowrank.py |  8 +++++---
 acetn/linalg/fused_matmul_svd_lowrank.py  |  6 ++++--
 acetn/linalg/orthonormal_basis.py         | 23 +++++++++++++++++++++++
 acetn/linalg/svd_lowrank.py               |  6 ++++--
 4 files changed, 36 insertions(+), 7 deletions(-)
 create mode 100644 acetn/linalg/orthonormal_basis.py

diff --git a/acetn/linalg/fused_3matmul_svd_lowrank.py b/acetn/linalg/fused_3matmul_svd_lowrank.py
index 2c9b487..9337563 100644
--- a/acetn/linalg/fused_3matmul_svd_lowrank.py
+++ b/acetn/linalg/fused_3matmul_svd_lowrank.py
@@ -1,5 +1,7 @@
 import torch
 
+from .orthonormal_basis import orthonormal_basis
+
 
 def fused_3matmul_svd_lowrank(A, B, C, D, q=6, niter=2):
     """
@@ -37,14 +39,14 @@ def fused_3matmul_svd_lowrank(A, B, C, D, q=6, niter=2):
     Y = A @ (B @ (C @ (D @ Omega)))
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormal_basis(Y)
         # (A @ B @ C @ D)^H @ Y = D^H @ (C^H @ (B^H @ (A^H @ Y)))
         Y = D.mH @ (C.mH @ (B.mH @ (A.mH @ Y)))
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormal_basis(Y)
         # A @ B @ C @ D @ Y
         Y = A @ (B @ (C @ (D @ Y)))
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormal_basis(Y)
 
     # B_proj = Q^H @ A @ B @ C @ D = ((Q^H @ A) @ B @ C) @ D
     B_proj = (((Q.mH @ A) @ B) @ C) @ D
diff --git a/acetn/linalg/fused_matmul_svd_lowrank.py b/acetn/linalg/fused_matmul_svd_lowrank.py
index e0dfe0f..acabf2b 100644
--- a/acetn/linalg/fused_matmul_svd_lowrank.py
+++ b/acetn/linalg/fused_matmul_svd_lowrank.py
@@ -1,5 +1,7 @@
 import torch
 
+from .orthonormal_basis import orthonormal_basis
+
 
 def fused_matmul_svd_lowrank(A, B, q=6, niter=2):
     """
@@ -35,12 +37,12 @@ def fused_matmul_svd_lowrank(A, B, q=6, niter=2):
     Y = A @ (B @ Omega)
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormal_basis(Y)
         # (A @ B)^H @ Y = B^H @ (A^H @ Y)
         # (A @ B) @ ((A @ B)^H @ Y) = A @ (B @ (B^H @ (A^H @ Y)))
         Y = A @ (B @ (B.mH @ (A.mH @ Y)))
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormal_basis(Y)
 
     # B_proj = Q^H @ (A @ B) = (Q^H @ A) @ B
     B = (Q.mH @ A) @ B
diff --git a/acetn/linalg/orthonormal_basis.py b/acetn/linalg/orthonormal_basis.py
new file mode 100644
index 0000000..ab50a00
--- /dev/null
+++ b/acetn/linalg/orthonormal_basis.py
@@ -0,0 +1,23 @@
+import torch
+
+
+def orthonormal_basis(Y):
+    """
+    Compute an orthonormal basis of the columns of Y.
+
+    LAPACK's QR decomposition of complex matrices can return NaN when entries are close to the
+    smallest normal number, which the power iteration of a randomized SVD produces easily. The 
+    columns are therefore scaled, and entries below their rounding error are set to zero.
+
+    Args:
+        Y (Tensor): Input matrix of shape (m, n).
+
+    Returns:
+        Tensor: Matrix with orthonormal columns of shape (m, min(m, n)).
+    """
+    info = torch.finfo(Y.dtype)
+    scale = Y.abs().amax(dim=0, keepdim=True)
+    Y = torch.where(scale > info.tiny, Y / scale, 0)
+    Y = Y.masked_fill(Y.abs() < info.eps, 0)
+    Q, _ = torch.linalg.qr(Y)
+    return Q
diff --git a/acetn/linalg/svd_lowrank.py b/acetn/linalg/svd_lowrank.py
index f2c48a1..8a94f87 100644
--- a/acetn/linalg/svd_lowrank.py
+++ b/acetn/linalg/svd_lowrank.py
@@ -1,5 +1,7 @@
 import torch
 
+from .orthonormal_basis import orthonormal_basis
+
 
 def svd_lowrank(A, q=6, niter=2):
     """
@@ -33,10 +35,10 @@ def svd_lowrank(A, q=6, niter=2):
     Y = A @ Omega
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormal_basis(Y)
         Y = A @ (A.mH @ Y)
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormal_basis(Y)
     B = Q.mH @ A
     U_B, S, Vh = torch.linalg.svd(B, full_matrices=False)
     U = Q @ U_B
-- 
2.43.0


From cf55d8b6d212beba047404ab188af5c6a9e50c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:15 +0000
Subject: [PATCH 34/36] fix: an interrupted directional move leaves boundary
 tensors that fit together

---
 acetn/renormalization/directional_mover.py | 65 ++++++++++++++++++----
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 19b99ea..5b5196a 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -32,12 +32,14 @@ class DirectionalMover:
         proj2 = {}
         for yi in range(ipeps.ny):
             proj1[yi], proj2[yi] = self.calculate_left_projectors(ipeps, xi, yi)
+        updates = []
         for yi in range(ipeps.ny):
             xj = (xi+1) % ipeps.nx
             yj = (yi+1) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, yi, yj, k=0)
+            updates.append(self.renormalized_boundary(ipeps, proj1, proj2, s1, s2, yi, yj, k=0))
+        self.update_boundary(ipeps, updates)
 
     def up_move(self, ipeps, yi):
         """
@@ -51,12 +53,14 @@ class DirectionalMover:
         proj2 = {}
         for xi in range(ipeps.nx):
             proj1[xi], proj2[xi] = self.calculate_up_projectors(ipeps, xi, yi)
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
             yj = (yi-1+ipeps.ny) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, xi, xj, k=1)
+            updates.append(self.renormalized_boundary(ipeps, proj1, proj2, s1, s2, xi, xj, k=1))
+        self.update_boundary(ipeps, updates)
 
     def right_move(self, ipeps, xi):
         """
@@ -70,12 +74,14 @@ class DirectionalMover:
         proj2 = {}
         for yi in range(ipeps.ny):
             proj1[yi], proj2[yi] = self.calculate_right_projectors(ipeps, xi, yi)
+        updates = []
         for yi in range(ipeps.ny):
             xj = (xi-1+ipeps.nx) % ipeps.nx
             yj = (yi-1+ipeps.ny) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, yi, yj, k=2)
+            updates.append(self.renormalized_boundary(ipeps, proj1, proj2, s1, s2, yi, yj, k=2))
+        self.update_boundary(ipeps, updates)
 
     def down_move(self, ipeps, yi):
         """
@@ -89,12 +95,14 @@ class DirectionalMover:
         proj2 = {}
         for xi in range(ipeps.nx):
             proj1[xi], proj2[xi] = self.calculate_down_projectors(ipeps, xi, yi)
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi-1+ipeps.nx) % ipeps.nx
             yj = (yi+1) % ipeps.ny
             s1 = (xi,yi)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1, proj2, s1, s2, xi, xj, k=3)
+            updates.append(self.renormalized_boundary(ipeps, proj1, proj2, s1, s2, xi, xj, k=3))
+        self.update_boundary(ipeps, updates)
 
     def calculate_left_projectors(self, ipeps, xi, yi):
         """
@@ -210,19 +218,23 @@ class DirectionalMover:
                 proj1r[yi + y_shift] = proj1_all[yi + ws//2]
                 proj2r[yi + y_shift] = proj2_all[yi + ws//2]
 
+        updates = []
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
             yj = (yi+1) % ipeps.ny
             s1 = (x1,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1l, proj2l, s1, s2, yi, yj, k=0)
+            updates.append(self.renormalized_boundary(ipeps, proj1l, proj2l, s1, s2, yi, yj, k=0))
+        self.update_boundary(ipeps, updates)
 
+        updates = []
         for yi in range(ipeps.ny):
             xj = (x2-1+ipeps.nx) % ipeps.nx
             yj = (yi-1+ipeps.ny) % ipeps.ny
             s1 = (x2,yi)
             s2 = (xj,yi)
-            self.renormalize_boundary(ipeps, proj1r, proj2r, s1, s2, yi, yj, k=2)
+            updates.append(self.renormalized_boundary(ipeps, proj1r, proj2r, s1, s2, yi, yj, k=2))
+        self.update_boundary(ipeps, updates)
 
     def up_down_move_dist(self, ipeps, y1, y2):
         """
@@ -254,19 +266,23 @@ class DirectionalMover:
                 proj1d[xi + x_shift] = proj1_all[xi + ws//2]
                 proj2d[xi + x_shift] = proj2_all[xi + ws//2]
 
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
             yj = (y1-1+ipeps.ny) % ipeps.ny
             s1 = (xi,y1)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1u, proj2u, s1, s2, xi, xj, k=1)
+            updates.append(self.renormalized_boundary(ipeps, proj1u, proj2u, s1, s2, xi, xj, k=1))
+        self.update_boundary(ipeps, updates)
 
+        updates = []
         for xi in range(ipeps.nx):
             xj = (xi-1+ipeps.nx) % ipeps.nx
             yj = (y2+1) % ipeps.ny
             s1 = (xi,y2)
             s2 = (xi,yj)
-            self.renormalize_boundary(ipeps, proj1d, proj2d, s1, s2, xi, xj, k=3)
+            updates.append(self.renormalized_boundary(ipeps, proj1d, proj2d, s1, s2, xi, xj, k=3))
+        self.update_boundary(ipeps, updates)
 
     def renormalize_boundary(self, ipeps, proj1, proj2, s1, s2, i, j, k):
         """
@@ -288,17 +304,44 @@ class DirectionalMover:
 
         This method modifies the `C` and `E` tensors at the boundary sites `s2` based on the projectors.
         """
+        self.update_boundary(ipeps, [self.renormalized_boundary(ipeps, proj1, proj2, s1, s2, i, j, k)])
+
+    def renormalized_boundary(self, ipeps, proj1, proj2, s1, s2, i, j, k):
+        """
+        Computes the renormalized boundary tensors without changing those of the iPEPS.
+
+        The arguments are those of `renormalize_boundary`.
+
+        Returns:
+            tuple: The site `s2`, the direction `k`, and the renormalized `C` and `E` tensors.
+        """
         ci = ipeps[s1]['C'][(3+k)%4]
         ei = ipeps[s1]['E'][(2+k)%4]
-        ipeps[s2]['C'][(3+k)%4] = self.renormalize_cj1(ci, ei, proj1[i])
+        cj1 = self.renormalize_cj1(ci, ei, proj1[i])
 
         ci = ipeps[s1]['C'][k]
         ei = ipeps[s1]['E'][k]
-        ipeps[s2]['C'][k] = self.renormalize_cj2(ci, ei, proj2[j])
+        cj2 = self.renormalize_cj2(ci, ei, proj2[j])
 
         ai = ipeps[s1].bond_permute(k)
         ei = ipeps[s1]['E'][(3+k)%4]
-        ipeps[s2]['E'][(3+k)%4] = self.renormalize_ej(ei, ai, proj2[i], proj1[j])
+        ej = self.renormalize_ej(ei, ai, proj2[i], proj1[j])
+        return s2, k, cj1, cj2, ej
+
+    @staticmethod
+    def update_boundary(ipeps, updates):
+        """
+        Stores the boundary tensors of a whole move, once all of them are known. A move that fails or is
+        interrupted before leaves boundary tensors that still fit together.
+
+        Args:
+            ipeps (IPEPS): The iPEPS object containing the tensor network.
+            updates (list): The results of `renormalized_boundary` for each site of the boundary.
+        """
+        for site, k, cj1, cj2, ej in updates:
+            ipeps[site]['C'][(3+k)%4] = cj1
+            ipeps[site]['C'][k] = cj2
+            ipeps[site]['E'][(3+k)%4] = ej
 
     @staticmethod
     def renormalize_cj1(ci, ei, proj):
-- 
2.43.0


From 87dd79931c20e81bff21ae1f66555cc724118c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:22 +0000
Subject: [PATCH 35/36] fix: load() of an unreadable file or one of another
 unit cell changes nothing

---
 acetn/ipeps/tensor_network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 1d44ccd..22ff67e 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -117,10 +117,15 @@ class TensorNetwork:
         """
         state_dict = torch.load(filename, weights_only=False)
         tn_cpu = state_dict['tensors']
-        for site, site_tensor in tn_cpu.items():
-            self[site] = site_tensor.to(self.dtype, self.device)
+        if set(tn_cpu) != set(self.site_list):
+            raise ValueError(f"The tensor network in {filename} has a different unit cell.")
+        # change nothing before everything has been read
+        site_tensors = {site: site_tensor.to(self.dtype, self.device) for site, site_tensor in tn_cpu.items()}
         # evolving reverses the order of the bonds, continue where the saved network stopped
-        self.bond_list = [Bond(*bond) for bond in state_dict['tensor_network'].bond_list]
+        bond_list = [Bond(*bond) for bond in state_dict['tensor_network'].bond_list]
+        for site, site_tensor in site_tensors.items():
+            self[site] = site_tensor
+        self.bond_list = bond_list
         self.site_states_initialized = True
 
     def setup_tensor_network(self, tensor_network):
-- 
2.43.0


From 97461bf879abde39bd9d92d5a1f71359246c990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 36/36] fix: an interrupt during the linear solve of a bond
 update is no longer swallowed

---
 acetn/evolution/als_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index df61b1f..6769516 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -224,7 +224,7 @@ class ALSSolver:
                     L = cholesky(R)
                     Y = solve_triangular(L, S, upper=False)
                     ar = solve_triangular(L.mH, Y, upper=True)
-                except:
+                except RuntimeError:
                     ar = torch.linalg.solve(R, S)
             case "pinv":
                 R_inv = pinv(R, hermitian=True, rcond=self.epsilon)
@@ -269,6 +269,6 @@ class ALSSolver:
             L = cholesky(R)
             Y = solve_triangular(L, S, upper=False)
             ar = solve_triangular(L.mH, Y, upper=True)
-        except:
+        except RuntimeError:
             ar = torch.linalg.solve(R, S)
         return ar
-- 
2.43.0

