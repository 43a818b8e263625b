From 549e7914b953a37f3e53e7f1dab75219301d10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:40 +0000
Subject: [PATCH 01/50] fix: PlaquetteqGPS fast update passes where() operands
 positionally

---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From 9e37014dd9ee1ea4638c2f401f6cf32e3610c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:37 +0000
Subject: [PATCH 02/50] fix: CPDBackflow fast update applies each changed site
 only once

---
 GPSKet/models/cpd_backflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 8bf41b1..005a61e 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -149,6 +149,8 @@ class CPDBackflow(nn.Module):
             )
         # Update configurations if fast-updating is in use
         if update_sites is not None:
+            # Repeated update sites carry the old occupancy in all but their first entry
+            occ_new = n
             def update_fun(saved_config, update_sites, occs):
                 def scan_fun(carry, count):
                     return (carry.at[update_sites[count]].set(occs[count]), None)
@@ -179,7 +181,6 @@ class CPDBackflow(nn.Module):
         # Compute orbitals and log-determinant
         if update_sites is not None:
             site_products_old = saved_site_products.value
-            occ_new = jax.vmap(jnp.take, in_axes=(0, 0))(n, update_sites)
             occ_old = jax.vmap(jnp.take, in_axes=(0, 0))(saved_configs.value, update_sites)
             orbitals, site_products = CPD_with_cache_batched(
                 self._epsilon, site_products_old, occ_new, occ_old, update_sites) # (B, L, N), (B, L, N, M)
-- 
2.43.0


From ff0cfba51811d4488fc9b19192a37915e7c716ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:00 +0000
Subject: [PATCH 03/50] fix: AR models only mask local states when the Hilbert
 space is constrained

---
 GPSKet/models/autoreg_plaquetteqGPS.py | 13 +++++++------
 GPSKet/models/autoreg_qGPS.py          | 13 +++++++------
 GPSKet/models/autoreg_qGPS_full.py     | 15 ++++++++-------
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/GPSKet/models/autoreg_plaquetteqGPS.py b/GPSKet/models/autoreg_plaquetteqGPS.py
index 05719d3..0576fa2 100644
--- a/GPSKet/models/autoreg_plaquetteqGPS.py
+++ b/GPSKet/models/autoreg_plaquetteqGPS.py
@@ -171,12 +171,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 01887f2..9e67835 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -270,12 +270,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return (cache, n_spins), log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..f29e9c4 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -333,13 +333,14 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi
-        + model.renormalize_log_psi(n_spins, model.hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if model.hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi
+            + model.renormalize_log_psi(n_spins, model.hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi, context_prod
 
 
-- 
2.43.0


From b13e947477ff68fe0fb142c9e8ae46c5d1bd3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:59 +0000
Subject: [PATCH 04/50] fix: FermiHubbard sets sections for operators without
 edges

---
 GPSKet/operator/hamiltonian/hubbard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 7d0d610..3391860 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -90,7 +90,7 @@ class FermiHubbard(FermionicDiscreteOperator):
                 )
                 count += 1
 
-                sections[batch_id] = count
+            sections[batch_id] = count
         return x_prime, mels
 
 
-- 
2.43.0


From 0686db6125a8b09c74c6c1a01013169d0a60e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:19 +0000
Subject: [PATCH 05/50] fix: apply_hopping without cumulative count counts the
 electrons strictly between the two sites

---
 GPSKet/operator/fermion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/operator/fermion.py b/GPSKet/operator/fermion.py
index 4ffa2dd..0e93f27 100644
--- a/GPSKet/operator/fermion.py
+++ b/GPSKet/operator/fermion.py
@@ -26,7 +26,9 @@ def apply_hopping(
 
                 if cummulative_count is None:
                     parity_count = np.sum(
-                        (x_prime[left_limit:right_limit] & spin_int).astype(np.bool)
+                        (x_prime[left_limit + 1 : right_limit + 1] & spin_int).astype(
+                            np.bool
+                        )
                     )
                 else:
                     parity_count = (
-- 
2.43.0


From f6ce81131f0a6c24bfffeeadea5a031a5065a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 06/50] fix: HeisenbergOnTheFly derives from Heisenberg so that
 it can be constructed

---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..dabf0cb 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From a55368035477fb63068f96ce6d400d8a205447ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 07/50] fix: get_J1_J2_Hamiltonian accepts a bool sign_rule
 together with J2

---
 GPSKet/operator/hamiltonian/J1J2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index dabf0cb..58029b9 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -47,6 +47,9 @@ def get_J1_J2_Hamiltonian(
         classtype = nk.operator.Heisenberg
 
     if J2 != 0:
+        # The sign rule only concerns the bonds between the two sublattices
+        if isinstance(sign_rule, bool):
+            sign_rule = (sign_rule, False)
         hamiltonian = classtype(hilbert, g, J=[J1 / 4, J2 / 4], sign_rule=sign_rule)
     else:
         hamiltonian = classtype(hilbert, g, J=J1 / 4, sign_rule=sign_rule)
-- 
2.43.0


From e5f24016a316dd91efcc033a6b89b9c2c93ed37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:07 +0000
Subject: [PATCH 08/50] fix: ASEP generator is Hermitian only if every process
 has the rate of its reverse

---
 GPSKet/operator/hamiltonian/asep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/asep.py b/GPSKet/operator/hamiltonian/asep.py
index 469064a..740602c 100644
--- a/GPSKet/operator/hamiltonian/asep.py
+++ b/GPSKet/operator/hamiltonian/asep.py
@@ -35,7 +35,8 @@ class AsymmetricSimpleExclusionProcess(DiscreteOperator):
     @property
     def is_hermitian(self) -> bool:
         flag = False
-        params_equal = np.sum([self.alpha, self.beta, self.gamma, self.delta]) == 2.0
+        # Each process needs the same rate as its reverse
+        params_equal = self.alpha == self.gamma and self.beta == self.delta
         if self.lambd == 0.0 and params_equal and self.p == self.q:
             flag = True
         return flag
-- 
2.43.0


From 017579658457f2a742facae50e7adc62342883d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:27 +0000
Subject: [PATCH 09/50] fix: hopping proposal leaves a configuration without
 electrons unchanged

---
 GPSKet/sampler/rules/fermionic_hopping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GPSKet/sampler/rules/fermionic_hopping.py b/GPSKet/sampler/rules/fermionic_hopping.py
index 5a241f8..f93954c 100644
--- a/GPSKet/sampler/rules/fermionic_hopping.py
+++ b/GPSKet/sampler/rules/fermionic_hopping.py
@@ -39,9 +39,10 @@ def transition_function(
         else:
             target_site = jax.random.choice(keyD, samp.shape[-1], p=target_site_probs)
         # Make sure no unallowed move is applied
-        target_site = jnp.where(
-            target_site_probs[target_site] == False, start_site, target_site
+        is_allowed = jnp.logical_and(
+            target_site_probs[target_site], (samp[start_site] & spin) != 0
         )
+        target_site = jnp.where(is_allowed, target_site, start_site)
         updated_sample = samp.at[start_site].add(-spin)
         updated_sample = updated_sample.at[target_site].add(spin)
 
-- 
2.43.0


From c9d7da8dd1da77cc2f682a831e8d6193b4e54f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:27 +0000
Subject: [PATCH 10/50] fix: MetropolisFastSampler counts acceptances per chain
 and returns the log-probabilities of its samples

---
 GPSKet/sampler/metropolis_fast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..c2bd778 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -69,7 +69,7 @@ class MetropolisFastSampler(MetropolisSampler):
                 update, new_intermediates_cache, s["intermediates_cache"]
             )
 
-            s["accepted"] += do_accept.sum()
+            s["accepted"] += do_accept
 
             s["log_prob"] = jax.numpy.where(
                 do_accept.reshape(-1), proposal_log_prob, s["log_prob"]
@@ -93,6 +93,7 @@ class MetropolisFastSampler(MetropolisSampler):
         new_state = state.replace(
             rng=new_rng,
             σ=s["σ"],
+            log_prob=s["log_prob"],
             n_accepted_proc=s["accepted"],
             n_steps_proc=state.n_steps_proc
             + sampler.sweep_size * sampler.n_chains_per_rank,
-- 
2.43.0


From 95a8d4254eb8aecb586e8a3e75b5919acb9ff445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:27 +0000
Subject: [PATCH 11/50] fix: FermionicDiscreteHilbert.__pow__ with a fixed
 number of electrons

---
 GPSKet/hilbert/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..75bae58 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -57,7 +57,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         if self._n_elec is None:
             n_elec = None
         else:
-            n_elec = (n_elec[0] * n, n_elec[1] * n)
+            n_elec = (self._n_elec[0] * n, self._n_elec[1] * n)
 
         return FermionicDiscreteHilbert(self.size * n, n_elec=n_elec)
 
-- 
2.43.0


From afebf5909cf189971a9fbe74e0e8550f9c7e0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:27 +0000
Subject: [PATCH 12/50] fix: batch_choice never draws an element of zero
 probability

---
 GPSKet/sampler/autoreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/autoreg.py b/GPSKet/sampler/autoreg.py
index 65f8d8d..3aafac4 100644
--- a/GPSKet/sampler/autoreg.py
+++ b/GPSKet/sampler/autoreg.py
@@ -23,7 +23,7 @@ def batch_choice(key, a, p):
     """
     p_cumsum = p.cumsum(axis=1)
     r = p_cumsum[:, -1:] * jax.random.uniform(key, shape=(p.shape[0], 1))
-    indices = (r > p_cumsum).sum(axis=1)
+    indices = (r >= p_cumsum).sum(axis=1)
     out = a[indices]
     return out
 
-- 
2.43.0


From 328442a641ecaedc8a0e24cf708ba91c06dc423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:27 +0000
Subject: [PATCH 13/50] fix: ASymmqGPS applies its coefficients along the
 determinant axis

---
 GPSKet/models/asymm_qGPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 323ccbf..6a10ad5 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -56,7 +56,7 @@ class ASymmqGPS(nn.Module):
         if self.symmetrization == "kernel":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sum(y, axis=1)  # (B, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=(-2, -1)))  # (B,)
                 y = jnp.log(y)
@@ -65,7 +65,7 @@ class ASymmqGPS(nn.Module):
         elif self.symmetrization == "projective":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=1))  # (B, S, T)
                 y = jnp.sum(y, axis=(-2, -1))  # (B,)
                 y = jnp.log(y)
-- 
2.43.0


From 089ae029f12591c51fa56a4210eff6c190f523a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:27 +0000
Subject: [PATCH 14/50] fix: BackflowJastrow passes orbitals and correction
 functions to the matching Backflow arguments

---
 GPSKet/models/backflow_jastrow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index 731ac2d..e825c46 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -44,8 +44,8 @@ class BackflowJastrow(nn.Module):
         for d in range(n_determinants):
             y = Backflow(
                 self.hilbert,
-                self.orbitals[d],
-                self.correction_fun[d],
+                correction_fun=self.correction_fun[d],
+                orbitals=self.orbitals[d],
                 apply_symmetries=self.backflow_apply_symmetries,
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
-- 
2.43.0


From 3af7bda2cbf45b49177be4888e15eebf8c4b9250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:27 +0000
Subject: [PATCH 15/50] fix: log_pfaffian no longer uses the removed jnp.NINF

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..8d9ba37 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -69,7 +69,7 @@ def log_pfaffian(mat):
         value = jnp.where(
             matrix[index + 1, index] != 0.0,
             value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
+            -jnp.inf + 0.0j,
         )
         t = matrix[index, (index + 2) :] / matrix[index, index + 1]
         matrix = matrix.at[index + 2 :, index + 2 :].add(
-- 
2.43.0


From 10451d8850d5581325c33701a542ed2448a3d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:10 +0000
Subject: [PATCH 16/50] fix: PlaquetteqGPS can be set up without the inverse
 symmetry operations

---
 GPSKet/models/plaquetteqGPS.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..da85eb4 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -11,9 +11,6 @@ from GPSKet.nn.initializers import normal
 from GPSKet.models.qGPS import no_syms
 
 
-import warnings
-
-
 # TODO: Improve symmetrisation framework (same as for qGPS)
 class PlaquetteqGPS(nn.Module):
     # TODO: add documentation
@@ -48,11 +45,8 @@ class PlaquetteqGPS(nn.Module):
             self.symmetries_inverse = self.syms[1]
         else:
             self.symmetries = self.syms
-            if self.apply_fast_update:
-                warnings.warn(
-                    "Attention! Fast updating is not applied in qGPS as the inverse symmetry operations are not supplied."
-                )
-            self.apply_fast_update = False
+            # Fast updating requires the inverse symmetry operations
+            assert not self.apply_fast_update
         self.L = self.hilbert.size
         self.local_dim = self.hilbert.local_size
         plaquettes = np.array(self.plaquettes)
-- 
2.43.0


From 275f52a90a47ccc965ba1cf6df2ed7a04e6169b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:10 +0000
Subject: [PATCH 17/50] fix: PlaquetteqGPS caches the updated configuration if
 a site is listed repeatedly

---
 GPSKet/models/plaquetteqGPS.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index da85eb4..5a61158 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -173,7 +173,15 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From 3d2da2b96d769fcb2dd95b752f0ef8fcd8adb326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:08 +0000
Subject: [PATCH 18/50] fix: log_pfaffian of a singular matrix is -inf instead
 of nan

---
 GPSKet/models/pfaffian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 8d9ba37..50d4fd9 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -71,7 +71,9 @@ def log_pfaffian(mat):
             value + jnp.log(matrix[index, index + 1]),
             -jnp.inf + 0.0j,
         )
-        t = matrix[index, (index + 2) :] / matrix[index, index + 1]
+        # (if the pivot vanishes, the whole row does and there is nothing to eliminate)
+        pivot = matrix[index, index + 1]
+        t = matrix[index, (index + 2) :] / jnp.where(pivot != 0.0, pivot, 1.0)
         matrix = matrix.at[index + 2 :, index + 2 :].add(
             jnp.outer(t, matrix[index + 2 :, index + 1])
         )
-- 
2.43.0


From 96d35c569473cfe9698321f176f87c88938cf325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:38 +0000
Subject: [PATCH 19/50] fix: PfaffianState adds the rotation axis its
 out_transformation reduces over

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 50d4fd9..c0d8706 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -127,7 +127,7 @@ class PfaffianState(nn.Module):
         self.out_transformation has the same meaning for this state as for the ZeroMagnetizationPfaffian
         below.
         """
-        return self.out_transformation(out)
+        return self.out_transformation(jnp.expand_dims(out, axis=-2))
 
 
 """
-- 
2.43.0


From fc9b5780ec6978fdbad3dd29a639598327bd1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:57 +0000
Subject: [PATCH 20/50] fix: VMC_SRRMSProp normalises its estimators by the
 number of samples

---
 GPSKet/driver/VMC_SRRMSProp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 50f8d0b..6c184ed 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -25,13 +25,13 @@ def SRRMSProp(
     local_energies = local_energies.flatten()
     if e_mean is None:
         e_mean = nkstats.mean(local_energies)
-    local_energies_centered = -2*jnp.conj(local_energies - e_mean) * jnp.sqrt(N_mc)
+    local_energies_centered = -2*jnp.conj(local_energies - e_mean) / jnp.sqrt(N_mc)
     local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered)
     local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
 
     # Center jacobians
     O_mean = nkstats.mean(O_L, axis=0)
-    O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
+    O_L = (O_L - O_mean) / jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
     O_L = O_L.reshape(-1, *O_L.shape[2:])
 
-- 
2.43.0


From 1119cc7d265c8c95fad7beaba600685f6bb8e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:57 +0000
Subject: [PATCH 21/50] fix: VMC_SRRMSProp repacks complex updates in real mode

---
 GPSKet/driver/VMC_SRRMSProp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 6c184ed..02e6bde 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -67,9 +67,9 @@ def SRRMSProp(
         updates = jnp.zeros(local_energies_centered.shape[0], dtype=jnp.float64)
     updates, token = mpi.mpi_bcast_jax(updates, token=token, root=0)
     
-    # If complex mode and we have complex parameters, we need
+    # If we have complex parameters, we need
     # To repack the real coefficients in order to get complex updates
-    if mode == "complex" and nkjax.tree_leaf_iscomplex(params_structure):
+    if nkjax.tree_leaf_iscomplex(params_structure):
         np = updates.shape[-1] // 2
         updates = updates[:np] + 1j * updates[np:]
 
-- 
2.43.0


From b9004e36f2524efd6ac7557315bcaab93a4e58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:56 +0000
Subject: [PATCH 22/50] fix: QGTJacobianDenseRMSProp finds its default Jacobian
 mode

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..6651b07 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -58,7 +58,6 @@ def QGTJacobianDenseRMSProp(
             vstate.parameters,
             vstate.model_state,
             samples,
-            mode=mode,
             holomorphic=holomorphic,
         )
 
-- 
2.43.0


From 815ceeb775d259a10bdaf7ed7de0c9a4dbb49704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:56 +0000
Subject: [PATCH 23/50] fix: QGTJacobianDenseRMSProp averages over the samples

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 6651b07..4a31756 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -83,6 +83,7 @@ def QGTJacobianDenseRMSProp(
         chunk_size=chunk_size,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 1092facfa2c7a4b051c3e42244bacbf9f2b2c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:54 +0000
Subject: [PATCH 24/50] fix: QGTOnTheFlyRMSProp shifts real and imaginary parts
 separately

---
 GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py b/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
index 8b8fd43..bef4c81 100644
--- a/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
@@ -33,10 +33,18 @@ def mat_vec(jvp_fn, v, diag_shift, ema, eps):
     (res,) = tree_conj(vjp_fn(w.conjugate()))
     res = tree_map(lambda x: mpi.mpi_sum_jax(x)[0], res)
 
+    # The EMA holds the squared real (imaginary) part of the gradient in its real
+    # (imaginary) part, so that the shift acts on the two parts separately
+    def scale(e_, v_):
+        if jnp.iscomplexobj(e_):
+            return (jnp.sqrt(e_.real) + eps) * v_.real + 1.0j * (
+                jnp.sqrt(e_.imag) + eps
+            ) * v_.imag
+        return (jnp.sqrt(e_) + eps) * v_
+
     # (1-diag_shift) * res + diag_shift * (sqrt(ema)+eps) * v
     return tree_map(
-        lambda r_, e_, v_: (1 - diag_shift) * r_
-        + diag_shift * (jnp.sqrt(e_) + eps) * v_,
+        lambda r_, e_, v_: (1 - diag_shift) * r_ + diag_shift * scale(e_, v_),
         res,
         ema,
         v,
-- 
2.43.0


From f18f867fbc344e19ac09c6c50a13d119fdf74d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:54 +0000
Subject: [PATCH 25/50] fix: SRDense can be constructed and used with its
 default solver

---
 GPSKet/optimizer/solvers.py  | 3 ++-
 GPSKet/optimizer/sr_dense.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/optimizer/solvers.py b/GPSKet/optimizer/solvers.py
index 57e6d24..785cb6f 100644
--- a/GPSKet/optimizer/solvers.py
+++ b/GPSKet/optimizer/solvers.py
@@ -4,7 +4,8 @@ from netket.jax import tree_ravel
 
 def pinv(A, b, rcond=1e-12, x0=None):
     del x0
-    A = A.to_dense()
+    if hasattr(A, "to_dense"):
+        A = A.to_dense()
     b, unravel = tree_ravel(b)
     A_inv = jnp.linalg.pinv(A, rcond=rcond, hermitian=True)
     x = jnp.dot(A_inv, b)
diff --git a/GPSKet/optimizer/sr_dense.py b/GPSKet/optimizer/sr_dense.py
index d8ceaa0..bb892eb 100644
--- a/GPSKet/optimizer/sr_dense.py
+++ b/GPSKet/optimizer/sr_dense.py
@@ -1,8 +1,8 @@
 import jax
 import jax.numpy as jnp
 import netket.jax as nkjax
-from dataclasses import dataclass
 from typing import Callable, Optional, Any
+from netket.utils import struct
 from netket.utils.types import PyTree, Scalar, ScalarOrSchedule
 from netket.vqs import VariationalState
 from netket.optimizer.preconditioner import AbstractLinearPreconditioner
@@ -10,8 +10,9 @@ from netket.optimizer.qgt import QGTJacobianDense
 from .solvers import pinv
 
 
-@dataclass
-class SRDense(AbstractLinearPreconditioner):
+class SRDense(AbstractLinearPreconditioner, mutable=True):
+    qgt_constructor: Callable = struct.static_field(default=None)
+
     def __init__(self, qgt: QGTJacobianDense, solver: Callable = pinv):
         self.qgt_constructor = qgt
         super().__init__(solver)
@@ -31,6 +32,8 @@ class SRDense(AbstractLinearPreconditioner):
 
         # Solve system
         x0 = self.solver(S, gradient)
+        if isinstance(x0, tuple):
+            x0, self.info = x0
         self.x0 = unravel_fun(x0)
 
         return self.x0
-- 
2.43.0


From 69dd6cbaae9db487787edf5b6fc3944a3ef6c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:54 +0000
Subject: [PATCH 26/50] fix: causal convolutions with even kernel sizes do not
 look ahead

---
 GPSKet/nn/causal_conv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/nn/causal_conv.py b/GPSKet/nn/causal_conv.py
index 896392b..f5f6977 100644
--- a/GPSKet/nn/causal_conv.py
+++ b/GPSKet/nn/causal_conv.py
@@ -54,9 +54,11 @@ class VerticalStackConv(nn.Module):
     def setup(self):
         # Mask out all sites on the same row
         mask = np.ones((self.kernel_size, self.kernel_size), dtype=np.float32)
-        mask[self.kernel_size // 2 + 1 :, :] = 0
+        # (the convolution is centred on this row of the kernel)
+        centre = (self.kernel_size - 1) // 2
+        mask[centre + 1 :, :] = 0
         if self.mask_center:
-            mask[self.kernel_size // 2, :] = 0
+            mask[centre, :] = 0
         self.conv = MaskedConv2D(
             features=self.features,
             mask=mask,
@@ -82,9 +84,11 @@ class HorizontalStackConv(nn.Module):
     def setup(self):
         # Mask out all sites on the left of the same row
         mask = np.ones((1, self.kernel_size), dtype=np.float32)
-        mask[0, self.kernel_size // 2 + 1 :] = 0
+        # (the convolution is centred on this column of the kernel)
+        centre = (self.kernel_size - 1) // 2
+        mask[0, centre + 1 :] = 0
         if self.mask_center:
-            mask[0, self.kernel_size // 2] = 0
+            mask[0, centre] = 0
         self.conv = MaskedConv2D(
             features=self.features,
             mask=mask,
-- 
2.43.0


From 6b4bbcee2ad3959bad0298787068f32e623379e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:32 +0000
Subject: [PATCH 27/50] fix: minSRVMC pairs local energies and samples in the
 same order

---
 GPSKet/driver/minSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 3606ab3..d35ca64 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -60,7 +60,7 @@ class minSRVMC(VMC):
         counts = counts.reshape((-1,))
 
         # Compute local energies and center them
-        loc_ens = self.state.local_estimators(self._ham).T.reshape(-1)
+        loc_ens = self.state.local_estimators(self._ham).reshape(-1)
         self._loss_stats = _statistics(loc_ens, counts)
         loc_ens_centered = (loc_ens - self._loss_stats.mean) * jnp.sqrt(counts)
 
-- 
2.43.0


From 25f296556534fe2ebc4abe0ab961a19ef878dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:32 +0000
Subject: [PATCH 28/50] fix: minSRVMC weights its Jacobian like its local
 energies

---
 GPSKet/driver/minSR.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index d35ca64..6509c7e 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -135,12 +135,11 @@ class minSRVMC(VMC):
                 dense=True,
                 center=False,
             )
+            if len(O_i.shape) == 3:
+                O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
-            if mpi.rank == 0:
-                if len(O_i.shape) == 3:
-                    O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-                O_i = O_i - O_avg
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
@@ -159,12 +158,12 @@ class minSRVMC(VMC):
                     dense=True,
                     center=False,
                 )
+                if len(O_j.shape) == 3:
+                    O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
+                O_j = (O_j - O_avg) * jnp.sqrt(counts[j])[:, np.newaxis]
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
                 if mpi.rank == 0:
-                    if len(O_j.shape) == 3:
-                        O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                    O_j = O_j - O_avg
                     ii, jj = np.meshgrid(idx_i, idx_j, indexing="ij")
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
@@ -203,7 +202,7 @@ class minSRVMC(VMC):
             if len(O_i.shape) == 3:
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
-            O_i = O_i - O_avg
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
-- 
2.43.0


From 97fcf283ddce9d5a4edf47192a4bb00cf0315902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:46 +0000
Subject: [PATCH 29/50] fix: minSRVMC keeps real and imaginary parts apart for
 real parameters

---
 GPSKet/driver/minSR.py | 46 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 6509c7e..f72d4ab 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -68,7 +68,11 @@ class minSRVMC(VMC):
         n_samples_per_rank = samples.shape[0]
         n_chunks = n_samples_per_rank // self.state.chunk_size
 
-        idx = jnp.arange(n_samples_per_rank).reshape((n_chunks, self.state.chunk_size))
+        # In complex mode the real and imaginary parts are treated as separate rows
+        n_rows = 2 if self.mode == "complex" else 1
+        chunk_rows = n_rows * self.state.chunk_size
+
+        idx = jnp.arange(n_rows * n_samples_per_rank).reshape((n_chunks, chunk_rows))
         samples = jnp.reshape(
             samples, (n_chunks, self.state.chunk_size, samples.shape[-1])
         )
@@ -80,7 +84,8 @@ class minSRVMC(VMC):
         # Initialize neural tangent kernel, gradient of loss and dense update
         if mpi.rank == 0:
             OO = jnp.zeros(
-                (self.state.n_samples, self.state.n_samples), dtype=jnp.complex128
+                (n_rows * self.state.n_samples, n_rows * self.state.n_samples),
+                dtype=jnp.complex128,
             )
 
         dense_update = None
@@ -120,8 +125,8 @@ class minSRVMC(VMC):
         for i in range(n_chunks):
             idx_i = (
                 idx[i]
-                + mpi.node_number * self.state.chunk_size
-                + i * self.state.chunk_size * (mpi.n_nodes - 1)
+                + mpi.node_number * chunk_rows
+                + i * chunk_rows * (mpi.n_nodes - 1)
             )
             idx_i, token = mpi.mpi_gather_jax(idx_i, token=token)
             idx_i = idx_i.reshape(-1)
@@ -135,16 +140,14 @@ class minSRVMC(VMC):
                 dense=True,
                 center=False,
             )
-            if len(O_i.shape) == 3:
-                O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
+            O_i = _center_and_stack(O_i, O_avg, counts[i])
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
-                    + mpi.node_number * self.state.chunk_size
-                    + j * self.state.chunk_size * (mpi.n_nodes - 1)
+                    + mpi.node_number * chunk_rows
+                    + j * chunk_rows * (mpi.n_nodes - 1)
                 )
                 idx_j, token = mpi.mpi_gather_jax(idx_j, token=token)
                 idx_j = idx_j.reshape(-1)
@@ -158,9 +161,7 @@ class minSRVMC(VMC):
                     dense=True,
                     center=False,
                 )
-                if len(O_j.shape) == 3:
-                    O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                O_j = (O_j - O_avg) * jnp.sqrt(counts[j])[:, np.newaxis]
+                O_j = _center_and_stack(O_j, O_avg, counts[j])
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
                 if mpi.rank == 0:
@@ -168,6 +169,10 @@ class minSRVMC(VMC):
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
         # Solve linear system and compute parameters update
+        if self.mode == "complex":
+            loc_ens_centered = jnp.concatenate(
+                (loc_ens_centered.real, loc_ens_centered.imag), axis=-1
+            )
         loc_ens_centered_restacked, token = mpi.mpi_gather_jax(loc_ens_centered, token=token)
 
         if mpi.rank == 0:
@@ -182,7 +187,7 @@ class minSRVMC(VMC):
             )
         else:
             OO_epsilon = jnp.zeros(
-                (n_chunks, self.state.chunk_size), dtype=jnp.complex128
+                (n_chunks, chunk_rows), dtype=jnp.complex128
             )
 
         OO_epsilon, token = mpi.mpi_scatter_jax(OO_epsilon, token=token)
@@ -199,10 +204,7 @@ class minSRVMC(VMC):
                 center=False,
             )
 
-            if len(O_i.shape) == 3:
-                O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-
-            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
+            O_i = _center_and_stack(O_i, O_avg, counts[i])
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
@@ -231,6 +233,16 @@ class minSRVMC(VMC):
         return self._dp
 
 
+def _center_and_stack(O, O_avg, counts):
+    sqrt_counts = jnp.sqrt(counts)[:, np.newaxis]
+    if len(O.shape) == 3:
+        # complex mode: real parts followed by imaginary parts
+        return jnp.concatenate(
+            ((O[:, 0, :] - O_avg.real) * sqrt_counts, (O[:, 1, :] - O_avg.imag) * sqrt_counts)
+        )
+    return (O - O_avg) * sqrt_counts
+
+
 @jax.jit
 def _statistics(data, counts):
     data = jnp.atleast_1d(data)
-- 
2.43.0


From e9ca0fb3a0559587157e18e3b8b9e3d1439b9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:41 +0000
Subject: [PATCH 30/50] fix: minSRVMC does not mix real and imaginary parts of
 complex parameters

---
 GPSKet/driver/minSR.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index f72d4ab..84ff92d 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -217,6 +217,8 @@ class minSRVMC(VMC):
         x = self.state.parameters
         if self.mode != "holomorphic":
             x, reassemble = nk.jax.tree_to_real(self.state.parameters)
+            # The update of the real and imaginary parts of the parameters is real
+            dense_update = dense_update.real
         _, unravel = nk.jax.tree_ravel(x)
 
         self._dp = reassemble(unravel(dense_update))
-- 
2.43.0


From e3a76d793297c9efc613aebef638fd83a626ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:26 +0000
Subject: [PATCH 31/50] fix: gradients of unique-samples states use the sample
 counts

---
 GPSKet/vqs/mc/mc_state/state_unique_samples.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_unique_samples.py b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
index da02888..9c94b34 100644
--- a/GPSKet/vqs/mc/mc_state/state_unique_samples.py
+++ b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
@@ -1,7 +1,7 @@
 import netket as nk
 import netket.jax as nkjax
 import jax.numpy as jnp
-from typing import Tuple, Optional, Callable, Literal, Any
+from typing import Tuple, Optional, Callable, Any
 from collections import defaultdict
 import numpy as np
 
@@ -123,14 +123,13 @@ class MCStateUniqueSamples(nk.vqs.MCState):
 """ The following functions just override the NetKet implementation to inject the sample counts into the expectation value evaluation."""
 
 
-@nk.vqs.expect_and_grad.dispatch(precedence=10)
-def expect_and_grad(
+@nk.vqs.expect_and_forces.dispatch(precedence=10)
+def expect_and_forces(
     vstate: MCStateUniqueSamples,
     op: nk.operator.AbstractOperator,
-    use_covariance: Literal[True],
     chunk_size: Optional[int],
     *,
-    mutable: Any
+    mutable: Any = False
 ):
     _, args = get_local_kernel_arguments(vstate, op)
     samples_and_counts = vstate.samples_with_counts
@@ -240,14 +239,6 @@ def grad_expect_hermitian_chunked(
 
         val_grad = vjp_fun((jnp.conjugate(loc_vals_centered)))[0]
 
-        val_grad = jax.tree_util.tree_map(
-            lambda x, target: (x if jnp.iscomplexobj(target) else 2 * x.real).astype(
-                target.dtype
-            ),
-            val_grad,
-            parameters,
-        )
-
         return loc_val_stats, jax.tree_util.tree_map(lambda x: _mpi_sum_jax(x)[0], val_grad)
     else:
         return loc_val_stats
-- 
2.43.0


From 00c0ae0dd7c0e96a32bc10d871037470c4e09687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:26 +0000
Subject: [PATCH 32/50] fix: QGTJacobianDenseUniqueSamples weights the samples
 by their counts

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 13d4909..492e34f 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -71,6 +71,7 @@ def QGTJacobianDenseUniqueSamples(
         pdf=counts,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 589691ce3d42a9b4f49a40547cb9a23f64d362cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:26 +0000
Subject: [PATCH 33/50] fix: QGTJacobianDenseUniqueSamples keeps its options
 when used as a constructor

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 492e34f..ac5c1a3 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -38,7 +38,12 @@ def QGTJacobianDenseUniqueSamples(
     assert diag_scale is None  # Not yet implemented -> TODO: implement support!
     if vstate is None:
         return partial(
-            QGTJacobianDenseUniqueSamples, mode=mode, holomorphic=holomorphic
+            QGTJacobianDenseUniqueSamples,
+            mode=mode,
+            holomorphic=holomorphic,
+            diag_shift=diag_shift,
+            diag_scale=diag_scale,
+            **kwargs
         )
 
     if mode is None:
-- 
2.43.0


From 7f971d8a598626ca2aefb7c4a5fef2befe7a5290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:23 +0000
Subject: [PATCH 34/50] fix: QGTJacobianDenseUniqueSamples works without a
 diagonal shift

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index ac5c1a3..bfc0f28 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -30,7 +30,7 @@ def QGTJacobianDenseUniqueSamples(
     *,
     mode: str = None,
     holomorphic: bool = None,
-    diag_shift=None,
+    diag_shift=0.0,
     diag_scale=None,
     **kwargs
 ) -> "QGTJacobianDenseT":
-- 
2.43.0


From aacc0a5c226b0e34f31d5744eb977b1898af7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:29 +0000
Subject: [PATCH 35/50] fix: MCStateStratifiedSampling can be constructed with
 the supported NetKet

---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From e8d2030364ede377719e14e06495e55d214e7c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 36/50] fix: imaginary-time-step states work with
 FermiHubbardOnTheFly

---
 GPSKet/supervised/imag_time_step.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 810a829..8be98af 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -54,6 +54,7 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     """
     log_model = vstate._apply_fun
     _, args = get_local_kernel_arguments(vstate, hamiltonian)
+    args = jax.tree_util.tree_map(jnp.asarray, args)
     if vstate.chunk_size is None:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian)
     else:
-- 
2.43.0


From 34572504d094ecdf8bc118cef577fb99dcb2b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:12 +0000
Subject: [PATCH 37/50] fix: imaginary-time-step states can be nested

---
 GPSKet/supervised/imag_time_step.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 8be98af..32af197 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -62,6 +62,9 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
 
     def imag_time_model_log_amp(model_pars, samples):
         pars, tau = freeze(model_pars).pop("tau")
+        if "inner_tau" in pars:  # nested imaginary time steps
+            pars, inner_tau = pars.pop("inner_tau")
+            pars = pars.copy(inner_tau)
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
@@ -70,5 +73,11 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
-    new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
+    model_state = dict(new_vstate.model_state)
+    inner_tau = {
+        key: model_state.pop(key) for key in ("tau", "inner_tau") if key in model_state
+    }
+    if inner_tau:
+        model_state["inner_tau"] = inner_tau
+    new_vstate.model_state = {"tau": tau, **model_state}
     return new_vstate
-- 
2.43.0


From d4f73abcd98b36a6905051957bd8e9581ed3f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 38/50] fix: the growing RVM works with the supported numpy

---
 GPSKet/supervised/supervised_qgps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..5526459 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -913,10 +913,10 @@ class QGPSLearningExp(QGPSLearning):
         S = S.real
         Q = Q.real
         # Use following:
-        # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
+        # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.inf q = Q, s = S
         qi = np.copy(Q)
         si = np.copy(S)
-        #  If A is not np.PINF, then it should be 'active' feature => use (EQ 1)
+        #  If A is not np.inf, then it should be 'active' feature => use (EQ 1)
         Qa, Sa = Q[self.active_elements], S[self.active_elements]
 
         if self.complex_expand and self.epsilon.dtype == complex:
@@ -989,7 +989,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1009,7 +1009,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From 502b1c1b7b603fb33cde9e091edca04492af5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 39/50] fix: the growing RVM adds the prior mean back to the
 site tensors

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 5526459..6dd0a30 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1061,7 +1061,7 @@ class QGPSLearningExp(QGPSLearning):
             self.setup_fit_alpha_dep()
 
         if not self.precomputed_features:
-            self.update_epsilon_with_weights()
+            self.update_epsilon_with_weights(prior_mean=prior_mean)
 
         return
 
-- 
2.43.0


From 060820e97497842cc88018c4506b760964769b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 40/50] fix: sign of the determinant term in the noise
 derivative of the evidence

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 6dd0a30..9fc3779 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -771,11 +771,11 @@ class QGPSLearningExp(QGPSLearning):
         KtK_der = KtK_der[np.ix_(self.active_elements, self.active_elements)]
 
         if self.cholesky:
-            derivative_noise = np.trace(
+            derivative_noise = -np.trace(
                 KtK_der.dot(self.Sinv_L.conj().T.dot(self.Sinv_L))
             )
         else:
-            derivative_noise = np.trace(KtK_der.dot(self.Sinv))
+            derivative_noise = -np.trace(KtK_der.dot(self.Sinv))
 
         if self.complex_expand and self.epsilon.dtype == complex:
             derivative_noise *= 0.5
-- 
2.43.0


From df3a5bc98d56a440c2d7ce836b5ca0c2104587b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 41/50] fix: log-space fits can optimise the noise with
 complex_expand

---
 GPSKet/supervised/supervised_qgps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 9fc3779..2f0edeb 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1107,7 +1107,11 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             )
 
     def prediction_after_setup(self):
-        return self.K.dot(self.weights)
+        if self.complex_expand and self.epsilon.dtype == complex:
+            K = np.hstack((self.K, 1.0j * self.K))
+        else:
+            K = self.K
+        return K.dot(self.weights)
 
     def setup_fit(
         self, confset, log_amplitudes, ref_sites, weightings=None, prior_mean=0.0
-- 
2.43.0


From f8083d2a841d07ef1df7a182753bfadb2e463193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 42/50] fix: the evidence of log-space fits takes the
 weightings into account

---
 GPSKet/supervised/supervised_qgps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 2f0edeb..8a711e6 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1155,7 +1155,12 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             else:
                 log_lik = -(len(self.fit_data) * np.log(2 * np.pi * self.noise_tilde))
 
-        log_lik -= np.dot(self.fit_data.conj(), self.fit_data) / self.noise_tilde
+        if self.weightings is not None:
+            weighted_fit_data = self.weightings * self.fit_data
+        else:
+            weighted_fit_data = self.fit_data
+
+        log_lik -= np.dot(self.fit_data.conj(), weighted_fit_data) / self.noise_tilde
         log_lik = _MPI_comm.allreduce(log_lik)
 
         if self.cholesky:
-- 
2.43.0


From 045718be809f5c11145980abc677a8e72f9b2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 43/50] fix: noise derivative of the evidence of log-space fits

---
 GPSKet/supervised/supervised_qgps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 8a711e6..96b9448 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1219,13 +1219,14 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             N = _mpi_sum(np.sum(self.weightings))
             squared_error = _mpi_sum(
                 np.sum(
-                    self.weightings * abs(self.fit_data - self.predict(self.confs)) ** 2
+                    self.weightings
+                    * abs(self.fit_data - self.prediction_after_setup()) ** 2
                 )
             )
         else:
             N = _mpi_sum(len(self.fit_data))
             squared_error = _mpi_sum(
-                np.sum(abs(self.fit_data - self.predict(self.confs)) ** 2)
+                np.sum(abs(self.fit_data - self.prediction_after_setup()) ** 2)
             )
 
         beta_derivative += N * self.noise_tilde
@@ -1234,7 +1235,7 @@ class QGPSLogSpaceFit(QGPSLearningExp):
         if self.epsilon.dtype == float:
             beta_derivative *= 0.5
 
-        return -(self.noise_tilde**2) * beta_derivative
+        return -beta_derivative / self.noise_tilde**2
 
     def fit_step(
         self,
-- 
2.43.0


From e761773c88f4f8db971b537bdf30be8fe69970a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:36 +0000
Subject: [PATCH 44/50] fix: the generalised linear model applies its Newton
 steps

---
 GPSKet/supervised/supervised_qgps.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 96b9448..2442708 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1362,7 +1362,8 @@ class QGPSGenLinMod(QGPSLearningExp):
                 if self.complex_expand and self.epsilon.dtype == complex:
                     weights = np.concatenate((weights.real, weights.imag))
             else:
-                weights = self.weights
+                # self.weights is reset below, this must not touch the current weights
+                weights = self.weights.copy()
 
         if self.complex_expand and self.epsilon.dtype == complex:
             K = np.hstack((self.K, 1.0j * self.K))
@@ -1538,7 +1539,9 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.cholesky = _MPI_comm.bcast(self.cholesky, root=0)
 
             if linesearch_fun is not None:
-                result = linesearch_fun(get_loss, get_grad, weights, update_directions)
+                full_directions = np.zeros_like(weights)
+                full_directions[self.active_elements] = update_directions
+                result = linesearch_fun(get_loss, get_grad, weights, full_directions)
                 gamma = result[0]
                 if gamma is None:
                     if _rank == 0:
@@ -1547,10 +1550,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             else:
                 gamma = 1.0
             if self.cholesky:
-                np.copyto(
-                    weights[self.active_elements],
-                    weights[self.active_elements] + gamma * update_directions,
-                )
+                weights[self.active_elements] += gamma * update_directions
             else:
                 if _rank == 0:
                     print("Cholesky fail")
-- 
2.43.0


From 4d20fc3f5344b2bf96c512c078d0f43a079bf00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:36 +0000
Subject: [PATCH 45/50] fix: fitting the generalised linear model leaves the
 caller's weightings alone

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 2442708..255d454 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1327,7 +1327,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.weightings = np.ones(len(self.exp_amps))
         else:
             self.weightings = weightings
-        self.weightings *= abs(prefactor) ** 2
+        self.weightings = self.weightings * abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
         if self.noise_tilde != 0.0:
             self.beta = 1 / self.noise_tilde
-- 
2.43.0


From bc1d9e0e7f26f20fb487a3e28125a6604bbec0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:36 +0000
Subject: [PATCH 46/50] fix: noise optimisation restarts from the stored prior
 precisions

---
 GPSKet/supervised/supervised_qgps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 255d454..de724e4 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -823,7 +823,7 @@ class QGPSLearningExp(QGPSLearning):
             def ML(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -832,7 +832,7 @@ class QGPSLearningExp(QGPSLearning):
             def derivative(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -865,7 +865,7 @@ class QGPSLearningExp(QGPSLearning):
 
             self.noise_tilde = np.exp(opt.x)[0]
             if opt_alpha:
-                np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                self.alpha_mat_ref_sites = alpha_init.copy()
             self.setup_fit_noise_dep(weightings=weightings)
 
         if opt_alpha:
-- 
2.43.0


From 10bb8d5a556e84bbd9e436649692e41425021d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:36 +0000
Subject: [PATCH 47/50] fix: prior precisions follow the feature order with a
 bias and complex_expand

---
 GPSKet/supervised/supervised_qgps.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index de724e4..024301a 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -114,15 +114,28 @@ class QGPSLearning:
         else:
             full_alpha = self.alpha_mat[self._ref_sites_incr_dim, self.feature_ids]
         if self.include_bias:
-            full_alpha = np.concatenate((full_alpha, self.alpha_bias))
+            if self.complex_expand and self.epsilon.dtype == complex:
+                # same order as the features: real parts, then imaginary parts
+                real_alpha, imag_alpha = np.split(full_alpha, 2)
+                full_alpha = np.concatenate(
+                    (
+                        real_alpha,
+                        self.alpha_bias[:1],
+                        imag_alpha,
+                        self.alpha_bias[1:],
+                    )
+                )
+            else:
+                full_alpha = np.concatenate((full_alpha, self.alpha_bias))
         return full_alpha
 
     @alpha_mat_ref_sites.setter
     def alpha_mat_ref_sites(self, alpha):
         if self.include_bias:
             if self.complex_expand and self.epsilon.dtype == complex:
-                alpha_bias = alpha[-2:]
-                alpha_epsilon = alpha[:-2]
+                real_alpha, imag_alpha = np.split(alpha, 2)
+                alpha_bias = np.concatenate((real_alpha[-1:], imag_alpha[-1:]))
+                alpha_epsilon = np.concatenate((real_alpha[:-1], imag_alpha[:-1]))
             else:
                 alpha_bias = alpha[-1:]
                 alpha_epsilon = alpha[:-1]
-- 
2.43.0


From 536a8b5fa7dc6b94f59d8f5d64b930e3c895172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:36 +0000
Subject: [PATCH 48/50] fix: cached features notice reused configuration and
 reference site buffers

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 024301a..a2b4e0e 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -100,7 +100,7 @@ class QGPSLearning:
                 self.epsilon.shape[1], dtype=int
             )
         else:
-            self._ref_sites = ref_sites_or_site
+            self._ref_sites = np.array(ref_sites_or_site)
         self._ref_sites_incr_dim = np.tile(
             self._ref_sites, (self.epsilon.shape[0], 1)
         ).T.flatten()
@@ -239,7 +239,7 @@ class QGPSLearning:
                 recompute_site_prod = True
 
             if recompute_site_prod:
-                self.confs = confs
+                self.confs = confs.copy()
                 self.compute_site_prod()
                 self.K_per_sym = None
 
-- 
2.43.0


From 2b16894fbfb01fee358a7ef9bf15fb3d0df1b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:36 +0000
Subject: [PATCH 49/50] fix: weighted evidence with vanishing target amplitudes

---
 GPSKet/supervised/supervised_qgps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index a2b4e0e..e283b47 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -630,24 +630,25 @@ class QGPSLearningExp(QGPSLearning):
 
     def log_marg_lik(self):
         if self.weightings is not None:
+            weightings = self.weightings[self.exp_amps != 0.0]
             if self.epsilon.dtype == complex:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
                             np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
             else:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
                             2
                             * np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
-- 
2.43.0


From cca34252d594cf43dfba83e84a7494acc5ad2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:11 +0000
Subject: [PATCH 50/50] fix: ExchangeRuleWithUpdate no longer depends on a
 class removed from netket, so MetropolisFastExchange can be constructed

---
 GPSKet/sampler/rules/exchange_with_update.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..ecf0043 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,16 +1,21 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.sampler.metropolis import MetropolisRule
+from netket.utils import struct
+from netket.utils.types import Array
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(MetropolisRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
+    clusters: Array
+    returns_updates: bool = struct.field(pytree_node=False, default=True)
+
+    def __init__(self, clusters: Array, returns_updates: bool = True) -> None:
+        self.clusters = clusters
+        self.returns_updates = returns_updates
 
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
-- 
2.43.0

