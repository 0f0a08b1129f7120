From 61fd14cef1d735150970b05532291a7051751d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 01/26] fix: Constant.transition_matrix called a method that
 does not exist

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..671629b 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -547,7 +547,7 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-- 
2.43.0


From 07461a83ed6d3deaa808f6deb6bf1188e72c1102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 02/26] fix: scaling a kernel raised TypeError and left its
 process noise unscaled

---
 src/smolgp/kernels/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 671629b..040a224 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -195,7 +195,7 @@ class StateSpaceModel(Kernel):
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
             )
-        return Scale(kernel=self, scale=other)
+        return Scale(name=self.name, kernel=self, scale=other)
 
     def __rmul__(self, other: Any) -> Kernel:
         if isinstance(other, StateSpaceModel):
@@ -205,7 +205,7 @@ class StateSpaceModel(Kernel):
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
             )
-        return Scale(kernel=self, scale=other)
+        return Scale(name=self.name, kernel=self, scale=other)
 
     def evaluate(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -485,6 +485,9 @@ class Scale(Wrapper):
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
 
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
 
 ################ GP KERNEL DEFINITIONS ################
 ## TODO: tinygp base kernels not yet implemented
-- 
2.43.0


From afa8f49b366693e1a1ca13efcd1b590d78f1c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 03/26] fix: Exp.transition_matrix failed for Python number
 coordinates

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 040a224..3158882 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -792,7 +792,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.array([[jnp.exp(-dt / self.scale)]])
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
-- 
2.43.0


From 2acecb5c5639a2ed5f051d1dea8be18b19179c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 04/26] fix: kernel evaluation swapped the observation vectors
 of the two points for X1 < X2

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 3158882..fa328d8 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -219,7 +219,7 @@ class StateSpaceModel(Kernel):
         h2 = self.observation_model(X2)
         return jnp.where(
             self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
+            (h1 @ Pinf @ self.transition_matrix(X1, X2).T @ h2.T).squeeze(),
             (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
         )
 
-- 
2.43.0


From e2b8d280d96a83a9d867b3b4ba979ba81196422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 05/26] fix: evaluate_diag returned a matrix, so kernel(X)
 raised ValueError

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index fa328d8..6497dcb 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From 6700a9d5cb940fa238635052a76341971a10832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 06/26] fix: SHO process noise was flushed to zero for small
 amplitudes or frequencies

---
 src/smolgp/kernels/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 6497dcb..b18af09 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -700,12 +700,13 @@ class SHO(StateSpaceModel):
             exp = jnp.exp(-a)
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
             Q11 = -expm1 - (sin2 / f + sinsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
-            Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
-            return jnp.where(
+            Q12 = Q21 = exp * (sinsq / (n2 * q))
+            Q22 = -expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2))
+            Q = jnp.array([[Q11, Q12], [Q21, Q22]])
+            Q = jnp.where(
                 jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
-            )  # prevent underflows
+            )  # prevent underflows (in units where sigma = omega = 1)
+            return jnp.square(self.sigma) * jnp.array([[1, w], [w, w2]]) * Q
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
-- 
2.43.0


From 651c0f78c9d66d4c03738a14407c04342d4e403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 07/26] fix: IntegratedSHO process noise was flushed to zero
 depending on amplitude and time unit

---
 src/smolgp/kernels/integrated.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..e54a368 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -390,7 +390,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             sin2 = jnp.sin(2 * arg)
             cos2 = jnp.cos(2 * arg)
             A2 = jnp.square(A)
-            iQ12_1 = jnp.square(exp * (cos + A * sin) - 1) / (q * w)
+            iQ12_1 = jnp.square(exp * (cos + A * sin) - 1) / q
             iQ12_2 = A * exp * (4 * sin - exp * sin2) - 2 * A2 * exp2 * sinsq + exp2m1
 
             part1 = 8 * q * w * dt + 4 * q2 - 12
@@ -398,14 +398,16 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             part3_1 = 16 * exp * (cos + (1 - 2 * q2) * A * sin)
             part3_2 = exp2 * ((1 - 3 * A2) / A * sin2 - 3 * cos2)
             part3 = part3_1 + part3_2
-            iQ22 = 1 / (4 * q2 * w2) * (part1 + part2 + part3)
+            iQ22 = 1 / (4 * q2) * (part1 + part2 + part3)
             iQ22 = jnp.maximum(iQ22, 0.0)  # prevent underflows at dt=0
 
-            Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
-            Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
+            Qaug12 = jnp.array([[iQ12_1], [iQ12_2]])
+            Qaug22 = jnp.array([[iQ22]])
+            # Prevent underflows (in units where sigma = omega = 1)
             Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
             Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
+            Qaug12 = sigma2 * jnp.array([[1 / w], [1]]) * Qaug12
+            Qaug22 = sigma2 / w2 * Qaug22
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
-- 
2.43.0


From 4b7f6353843a0bda8f19fbebc6a7907e468be3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 08/26] fix: Matern ignored the name given by the user

---
 src/smolgp/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index b18af09..2480041 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1303,7 +1303,7 @@ class Matern(StateSpaceModel):
         nu: JAXArray | float,
         scale: JAXArray | float,
         sigma: JAXArray | float = jnp.ones(()),
-        name: str = "Matern",
+        name: str | None = None,
         **kwargs,
     ):
         assert jnp.isclose(nu % 1, 0.5), (
@@ -1312,7 +1312,7 @@ class Matern(StateSpaceModel):
         self.nu = nu
         self.scale = scale
         self.sigma = sigma
-        self.name = f"Matern{self.nu * 2:.0f}{2}"
+        self.name = f"Matern{self.nu * 2:.0f}{2}" if name is None else name
         self.lam = jnp.sqrt(2 * self.nu) / self.scale
 
     @property
-- 
2.43.0


From fb16fad2f49d8a53db7999405048d6d7de709ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 09/26] fix: a product kernel selected as a component observed
 zero instead of itself

---
 src/smolgp/kernels/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 2480041..002471c 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -401,9 +401,10 @@ class Product(StateSpaceModel):
 
     def observation_model(self, X: JAXArray, component=None) -> JAXArray:
         """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
+        keep = (component is None) or (self.name == component)
+        H1 = self.kernel1.observation_model(X)
+        H2 = self.kernel2.observation_model(X)
+        return jnp.kron(H1, H2) * int(keep)
 
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
-- 
2.43.0


From f5fa326bdde7c791d73312547f47b589166b64cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 10/26] fix: assigning unique names failed for repeated kernels
 inside products and could repeat a user-given name

---
 src/smolgp/gp.py           | 16 ++++++++--------
 src/smolgp/kernels/base.py |  6 ++++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..f16ca44 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels import StateSpaceModel, Sum
 from smolgp.kernels.base import extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -48,21 +48,21 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
         counts[k.name] = counts.get(k.name, 0) + 1
     # counter for how many times we've used each duplicated name
     used = {name: 1 for name, c in counts.items() if c > 1}
+    taken = set(names)  # generated names must not repeat any of these
 
     def _rename(k: StateSpaceModel) -> StateSpaceModel:
         if isinstance(k, Sum):
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (a Product is a single component)
         if counts[k.name] > 1:
-            idx = used[k.name]
+            newname = f"{k.name}_{used[k.name]}"
+            while newname in taken:
+                used[k.name] += 1
+                newname = f"{k.name}_{used[k.name]}"
             used[k.name] += 1
-            newname = f"{k.name}_{idx}"
+            taken.add(newname)
             return dataclasses.replace(k, name=newname)
         else:
             # Single occurrence: leave unchanged
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 002471c..77bf5d7 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -345,10 +345,12 @@ class Product(StateSpaceModel):
     kernel1: StateSpaceModel
     kernel2: StateSpaceModel
 
-    def __init__(self, kernel1, kernel2):
+    def __init__(self, kernel1, kernel2, name=None):
         self.kernel1 = kernel1
         self.kernel2 = kernel2
-        self.name = f"Product({kernel1.name}, {kernel2.name})"
+        if name is None:
+            name = f"Product({kernel1.name}, {kernel2.name})"
+        self.name = name
 
     @property
     def dimension(self) -> int:
-- 
2.43.0


From 7bdb5e89f0c22eef5f170f0c367dedeb7afcaa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 11/26] fix: ParallelStateSpaceSolver.condition failed without
 innovations

---
 src/smolgp/solvers/parallel/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..8750232 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -63,7 +63,7 @@ class ParallelStateSpaceSolver(eqx.Module):
         """
 
         # Kalman filtering
-        kalman_results = self.Kalman(y, return_v_S=True)
+        kalman_results = self.Kalman(y, return_v_S=return_v_S)
         if return_v_S:
             m_filtered, P_filtered, m_predicted, P_predicted, v, S = kalman_results
             v_S = (v, S)
-- 
2.43.0


From 52c38491c0b2f02dd12653d8f8916fb00e05dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 12/26] fix: ParallelStateSpaceSolver.predict assumed that the
 coordinates are plain arrays

---
 src/smolgp/solvers/parallel/solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 8750232..361a9ff 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -117,7 +117,6 @@ class ParallelStateSpaceSolver(eqx.Module):
         # Unpack test coordinates
         t_test = self.kernel.coord_to_sortable(X_test)
 
-        N = len(self.X)  # number of data points
         K = len(t_states)  # number of states
         M = len(t_test)  # number of test points
 
@@ -150,7 +149,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             Kalman prediction from most recent
             filtered (not smoothed) state
             """
-            dt = X_test[ktest] - self.X[k]
+            dt = t_test[ktest] - t_states[k]
             m_k = m_filtered[k]
             P_k = P_filtered[k]
             A_star = A(0, dt)  # transition matrix from t_k to t_star
@@ -180,7 +179,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             ]  # RTS smoothed covariance at next data point
 
             # Time-lag between states
-            dt = self.X[k_next] - X_test[ktest]
+            dt = t_states[k_next] - t_test[ktest]
 
             # Transition matrix for this step
             A_k = A(0, dt)
-- 
2.43.0


From 748c5f562ef3d3c50eeb91f57fa06762ff213fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 13/26] fix: predict could not use the result of condition for
 the instantaneous solvers

---
 src/smolgp/gp.py                      | 12 +-----------
 src/smolgp/solvers/parallel/solver.py |  7 ++++++-
 src/smolgp/solvers/solver.py          |  7 ++++++-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index f16ca44..1b91946 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -507,17 +507,7 @@ class GaussianProcess(eqx.Module):
             (m_smoothed, P_smoothed),
         ) = conditioned_states
 
-        if isinstance(
-            self.solver,
-            (IntegratedStateSpaceSolver, ParallelIntegratedStateSpaceSolver),
-        ):
-            t_states, instid, obsid, stateid = state_coords
-        else:
-            # If not integrated, t_states = X and id arrays are 'defaulted'
-            t_states = self.kernel.coord_to_sortable(state_coords)
-            instid = jnp.zeros_like(t_states, dtype=int)
-            obsid = jnp.arange(len(t_states), dtype=int)
-            stateid = jnp.ones_like(t_states, dtype=int)  # all "have data"
+        t_states, instid, obsid, stateid = state_coords
 
         # Save the conditioned state values to a new GP object
         # so we can use them to make quick predictions at test
diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 361a9ff..54d5863 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -76,13 +76,18 @@ class ParallelStateSpaceSolver(eqx.Module):
         _, m_smoothed, P_smoothed = rts_results
 
         # Pack-up results and return
+        # Every state has data, so the id arrays are 'defaulted'
         t_states = self.kernel.coord_to_sortable(self.X)
+        instid = jnp.zeros_like(t_states, dtype=int)
+        obsid = jnp.arange(len(t_states), dtype=int)
+        stateid = jnp.ones_like(t_states, dtype=int)
+        state_coords = (t_states, instid, obsid, stateid)
         conditioned_states = (
             (m_predicted, P_predicted),
             (m_filtered, P_filtered),
             (m_smoothed, P_smoothed),
         )
-        return t_states, conditioned_states, v_S
+        return state_coords, conditioned_states, v_S
 
     @jax.jit
     def predict(self, X_test, conditioned_results) -> JAXArray:
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 2801eb7..b6ad3db 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -75,13 +75,18 @@ class StateSpaceSolver(eqx.Module):
         m_smoothed, P_smoothed = rts_results
 
         # Pack-up results and return
+        # Every state has data, so the id arrays are 'defaulted'
         t_states = self.kernel.coord_to_sortable(self.X)
+        instid = jnp.zeros_like(t_states, dtype=int)
+        obsid = jnp.arange(len(t_states), dtype=int)
+        stateid = jnp.ones_like(t_states, dtype=int)
+        state_coords = (t_states, instid, obsid, stateid)
         conditioned_states = (
             (m_predicted, P_predicted),
             (m_filtered, P_filtered),
             (m_smoothed, P_smoothed),
         )
-        return t_states, conditioned_states, v_S
+        return state_coords, conditioned_states, v_S
 
     @jax.jit
     def predict(self, X_test, conditioned_results) -> JAXArray:
-- 
2.43.0


From 42272bd8fffa582a9709fb4b7ce91a754c5bf260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 14/26] fix: conditioning on or predicting at a single point
 lost the point axis

---
 src/smolgp/gp.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 1b91946..932c845 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -153,7 +153,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return _squeeze_observation(mu), _squeeze_observation(var)
 
 
 class PredictedStates(eqx.Module):
@@ -193,7 +193,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return _squeeze_observation(mu)
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -206,7 +206,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return _squeeze_observation(var)
 
     @property
     def loc(self) -> JAXArray:
@@ -667,10 +667,9 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
-                        H, variance
-                    ).squeeze()
+                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean)
+                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
+                    mu, var = _squeeze_observation(mu), _squeeze_observation(var)
 
         if return_var:
             return mu, var
@@ -872,3 +871,9 @@ def _default_diag(reference: JAXArray) -> JAXArray:
     give sensible results in general.
     """
     return jnp.sqrt(jnp.finfo(reference).eps)
+
+
+def _squeeze_observation(values: JAXArray) -> JAXArray:
+    """Drop the observation axes of length one, keeping the leading (point) axis"""
+    axes = tuple(i for i in range(1, values.ndim) if values.shape[i] == 1)
+    return jnp.squeeze(values, axis=axes)
-- 
2.43.0


From 64eeb69ff30d25739ff9d2fdb21dbe623adea024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 15/26] fix: condition failed when test coordinates were given

---
 src/smolgp/gp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 932c845..172e969 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -542,8 +542,13 @@ class GaussianProcess(eqx.Module):
             )
 
         if X_test is not None:
-            # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            # If X_test was given, predict the states there
+            # and project them to observation space
+            m_test, P_test = self.solver.predict(X_test, conditioned_results)
+            H = jax.vmap(observation_model)(X_test)
+            mu = jax.vmap(lambda H_i, m: H_i @ m)(H, m_test)
+            var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, P_test)
+            mu, var = _squeeze_observation(mu), _squeeze_observation(var)
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From e10a3e1e122cdc80dc7332aa6f24e0b1aae89fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 16/26] fix: the mean function was ignored by the likelihood,
 conditioning and prediction

---
 src/smolgp/gp.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 172e969..199c5e4 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -427,6 +427,13 @@ class GaussianProcess(eqx.Module):
         # return self.covariance_value
         raise NotImplementedError
 
+    def _data_mean(self) -> JAXArray:
+        """The mean function at the data coordinates"""
+        if self.states is None:
+            return self.mean
+        # once conditioned, self.mean is the conditional mean instead
+        return jax.vmap(self.mean_function)(self.states.X)
+
     def log_probability(self, y: JAXArray) -> JAXArray:
         """Compute the log probability of this multivariate normal
 
@@ -439,7 +446,8 @@ class GaussianProcess(eqx.Module):
             The marginal log probability of this multivariate normal model,
             evaluated at ``y``.
         """
-        _, _, _, _, v, S = self.solver.Kalman(y, return_v_S=True)
+        resid = y - self._data_mean()
+        _, _, _, _, v, S = self.solver.Kalman(resid, return_v_S=True)
         return self._compute_log_prob(v, S)
 
     def condition(
@@ -497,7 +505,8 @@ class GaussianProcess(eqx.Module):
                 )
 
         ## Condition on the data and return likelihood ingredients
-        conditioned_results = self.solver.condition(y, return_v_S=True)
+        resid = y - self._data_mean()
+        conditioned_results = self.solver.condition(resid, return_v_S=True)
 
         ## unpack into prediction at the states
         state_coords, conditioned_states, (v, S) = conditioned_results
@@ -549,18 +558,22 @@ class GaussianProcess(eqx.Module):
             mu = jax.vmap(lambda H_i, m: H_i @ m)(H, m_test)
             var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, P_test)
             mu, var = _squeeze_observation(mu), _squeeze_observation(var)
+            mean_test = jax.vmap(self.mean_function)(X_test)
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
             X_test = self.X
             mu, var = states.project_at_data(observation_model)
+            mean_test = self._data_mean()
+        if include_mean:
+            mu = mu + mean_test
 
         ## Create the conditioned GP
         condGP = GaussianProcess(
             kernel=self.kernel,
             X=X_test,
             noise=self.noise,
-            # mean=self.mean,
+            mean=self.mean_function,
             solver=self.solver,
             mean_value=mu,
             variance_value=var,
@@ -675,6 +688,9 @@ class GaussianProcess(eqx.Module):
                     mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean)
                     var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
                     mu, var = _squeeze_observation(mu), _squeeze_observation(var)
+                    if kernel is None and observation_model is None:
+                        # the full model includes the mean function
+                        mu = mu + jax.vmap(self.mean_function)(X_test)
 
         if return_var:
             return mu, var
-- 
2.43.0


From aeb51439129f4766a3c429071f396871d884b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 17/26] fix: the parallel filter evaluated the observation
 model at the time lag instead of the data coordinate

---
 src/smolgp/solvers/parallel/kalman.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..0b6bdab 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -29,7 +29,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     t = kernel.coord_to_sortable(X)
 
-    asso_params = make_associative_params(Phi, H, Q, R, t, y, m0, P0)
+    asso_params = make_associative_params(Phi, H, Q, R, X, t, y, m0, P0)
     A, b, C, eta, J = parallel_kalman_filter(asso_params)
     m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, X, t, y, b, C, m0, P0)
     # return (A, b, C, eta, J), (m_pred, P_pred, v, S)
@@ -41,23 +41,25 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
+def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
     """Generate the associative parameters needed for parallel Kalman
 
     See Eqns. 10, 11, 12 from Sarkka & Garcia-Fernandez (2020)
 
     """
 
+    # Observation model at the data coordinates
+    H_all = jax.vmap(H)(X)
+
     def make_first_params(
         Phi,
-        H,
+        H0,
         m0,
         P0,
         y0,
         r0,
     ):
         Phi0 = Phi(0, 0)
-        H0 = H(0)  # this is sort of unnecessary but we'll keep it for now
 
         m = Phi0 @ m0
         P = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
@@ -76,7 +78,7 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
     def make_generic_params(
         Phi,
-        H,
+        Hk,
         Q,
         t_delta,
         y,
@@ -85,7 +87,6 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         Phi_dt = Phi(0, t_delta)
         I = jnp.eye(Phi_dt.shape[-1])
 
-        Hk = H(t_delta)  # TODO: this is wrong, pass data coordinate here
         Q_dt = Q(0, t_delta)
 
         S = Hk @ Q_dt @ Hk.T + r
@@ -101,12 +102,12 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, y[0], R[0])
+    A0, b0, C0, eta0, J0 = make_first_params(Phi, H_all[0], m0, P0, y[0], R[0])
     t_delta = jnp.diff(t)
     A, b, C, eta, J = jax.vmap(
         make_generic_params,
-        in_axes=(None, None, None, 0, 0, 0),
-    )(Phi, H, Q, t_delta, y[1:], R[1:])
+        in_axes=(None, 0, None, 0, 0, 0),
+    )(Phi, H_all[1:], Q, t_delta, y[1:], R[1:])
 
     A_all = jnp.concatenate([A0[jnp.newaxis, ...], A], axis=0)
     b_all = jnp.concatenate([b0[jnp.newaxis, ...], b], axis=0)
-- 
2.43.0


From 1d8a59ab74f11d680fcdc616e1b0c62e0b11ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 18/26] fix: the parallel integrated filter ignored an
 instantaneous measurement at the first state

---
 .../solvers/integrated/parallel/kalman.py     | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..74eab33 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -114,13 +114,30 @@ def make_associative_params(
         m0,
         P0,
         Reset,
+        stateid,
+        obsid,
     ):
         Phi0 = Phi_aug(0, 0)
 
-        transition = Reset @ Phi0
+        # Q(0,0) = 0
+        m_pred = Phi0 @ m0
+        P_pred = Phi0 @ P0 @ Phi0.T
+
+        def start():
+            m = Reset @ m_pred
+            P = Reset @ P_pred @ Reset.T
+            return m, P
+
+        def end():
+            # e.g. an instantaneous measurement
+            Hk = H_array[obsid]
+            Sk = Hk @ P_pred @ Hk.T + R[obsid]
+            Kk = jnp.linalg.solve(Sk.T, (P_pred @ Hk.T).T).T
+            m = m_pred + Kk @ (y[obsid] - Hk @ m_pred)
+            P = P_pred - Kk @ Sk @ Kk.T
+            return m, P
 
-        m = transition @ m0
-        P = transition @ P0 @ transition.T  # Q(0,0) = 0
+        m, P = jax.lax.cond(stateid == 0, start, end)
 
         A = Reset
         b = jnp.squeeze(m)
@@ -180,6 +197,8 @@ def make_associative_params(
         m0,
         P0,
         RESET(instid[0]),
+        stateid[0],
+        obsid[0],
     )
     t_delta = jnp.diff(t_states)
 
-- 
2.43.0


From dfb28b1fb245a1254a85eff32248f33781213544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 19/26] fix: a scaled exposure-integrated kernel silently used
 the instantaneous solver

---
 src/smolgp/gp.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 199c5e4..59dacda 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,8 +16,8 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum
-from smolgp.kernels.base import extract_leaf_kernels
+from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels.base import Wrapper, extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
 from smolgp.solvers import StateSpaceSolver
@@ -71,6 +71,17 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _contains_integrated(kernel: StateSpaceModel) -> bool:
+    """Whether any part of the kernel is an integrated kernel"""
+    if isinstance(kernel, (Sum, Product)):
+        return _contains_integrated(kernel.kernel1) or _contains_integrated(
+            kernel.kernel2
+        )
+    if isinstance(kernel, Wrapper):
+        return _contains_integrated(kernel.kernel)
+    return isinstance(kernel, IntegratedStateSpaceModel)
+
+
 class ConditionedStates(eqx.Module):
     """
     An object to hold the conditioned means and variances
@@ -327,7 +338,7 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = _contains_integrated(self.kernel)
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
-- 
2.43.0


From d4c5385ab97175fd9b85561007190e33362f0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 20/26] fix: dense.extract_leaf_kernels ignored all=True below
 the first level

---
 src/smolgp/kernels/dense.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index 0b1db42..ddc173d 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -21,8 +21,8 @@ def extract_leaf_kernels(kernel, all=False):
     """Recursively extract all leaf kernels from a sum or product of kernels"""
     leaf_level = (Sum, qsSum, Product, qsProduct) if all else (Sum, qsSum)
     if isinstance(kernel, leaf_level):
-        return extract_leaf_kernels(kernel.kernel1) + extract_leaf_kernels(
-            kernel.kernel2
+        return extract_leaf_kernels(kernel.kernel1, all=all) + extract_leaf_kernels(
+            kernel.kernel2, all=all
         )
     else:
         return [kernel]
-- 
2.43.0


From 1757dc8a655f70d6162d84e3e6d9f9835886f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 21/26] fix: the parallel filter failed for one-dimensional
 kernels

---
 src/smolgp/solvers/parallel/kalman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 0b6bdab..824e8ad 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -67,11 +67,11 @@ def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -93,11 +93,11 @@ def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From 40d3ae44f58dc7c2c2530442b99745741acfc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 22/26] fix: exposure boundaries keep their fractional part for
 integer midpoints

The state coordinates were stored with the dtype of the midpoints, so integer
midpoints truncated the exposure start and end times: the parallel solver
returned a wrong likelihood, the sequential one a dtype error.
---
 src/smolgp/solvers/integrated/parallel/solver.py | 2 +-
 src/smolgp/solvers/integrated/solver.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d04ec95..c528862 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -60,7 +60,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 727d4db..e706af4 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -61,7 +61,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
-- 
2.43.0


From 3ebe5b8ecac54759cd45be5ff7a76d6afd2bd013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 23/26] fix: default noise for an integer-valued mean

A constant integer mean (e.g. mean=0) without diag raised a ValueError, since
the default jitter asked for the epsilon of an integer dtype.
---
 src/smolgp/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 59dacda..42900b6 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -902,7 +902,7 @@ def _default_diag(reference: JAXArray) -> JAXArray:
     we use sqrt(eps) for the dtype of the mean function because that seems to
     give sensible results in general.
     """
-    return jnp.sqrt(jnp.finfo(reference).eps)
+    return jnp.sqrt(jnp.finfo(jnp.result_type(reference, float)).eps)
 
 
 def _squeeze_observation(values: JAXArray) -> JAXArray:
-- 
2.43.0


From 460a3dc4b431e8d20e3c5cf117165475316f21c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 24/26] fix: the sequential filter accepts integer coordinates

The branches of the first-step lag had different dtypes, so integer times
raised a TypeError with StateSpaceSolver but not with the parallel solver.
---
 src/smolgp/solvers/kalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 8168e92..132e946 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -77,7 +77,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         Delta = jax.lax.cond(
             k > 0,
             lambda i: t[i] - t[i - 1],
-            lambda _: 0.0,
+            lambda _: jnp.zeros_like(t[0]),
             k,
         )
 
-- 
2.43.0


From d4cf7e10fc1445e64f797db5a42f53ae56dc26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 25/26] fix: conditioning again after conditioning at test
 coordinates used those as the data's

---
 src/smolgp/gp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 42900b6..d6846c4 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -438,6 +438,11 @@ class GaussianProcess(eqx.Module):
         # return self.covariance_value
         raise NotImplementedError
 
+    def _data_coords(self) -> JAXArray:
+        """The data coordinates"""
+        # once conditioned, self.X may be test coordinates instead
+        return self.X if self.states is None else self.states.X
+
     def _data_mean(self) -> JAXArray:
         """The mean function at the data coordinates"""
         if self.states is None:
@@ -533,7 +538,7 @@ class GaussianProcess(eqx.Module):
         # so we can use them to make quick predictions at test
         # points with subsequent calls to self.predict
         states = ConditionedStates(
-            self.X,
+            self._data_coords(),
             t_states,
             instid,
             obsid,
@@ -573,7 +578,7 @@ class GaussianProcess(eqx.Module):
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-            X_test = self.X
+            X_test = self._data_coords()
             mu, var = states.project_at_data(observation_model)
             mean_test = self._data_mean()
         if include_mean:
-- 
2.43.0


From 3fe873fbcbc3d4b3c16c1c81b5ecf330ec50a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:25 +0000
Subject: [PATCH 26/26] fix: Matern of general order could not be used in a
 process (its order was traced, its stationary covariance computed by scipy)

---
 src/smolgp/kernels/base.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 77bf5d7..6eb08a4 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1296,7 +1296,7 @@ class Matern(StateSpaceModel):
         sigma (optional): The parameter :math:`\sigma`. Defaults to a value of 1.
     """
 
-    nu: JAXArray | float
+    nu: float = eqx.field(static=True)  # sets the dimension
     scale: JAXArray | float
     sigma: JAXArray | float
     lam: JAXArray | float
@@ -1309,7 +1309,8 @@ class Matern(StateSpaceModel):
         name: str | None = None,
         **kwargs,
     ):
-        assert jnp.isclose(nu % 1, 0.5), (
+        nu = float(nu)
+        assert abs(nu % 1 - 0.5) < 1e-5, (
             "nu must be a half-integer (e.g., 1/2, 3/2, 5/2, etc.)"
         )
         self.nu = nu
@@ -1359,19 +1360,16 @@ class Matern(StateSpaceModel):
         return jnp.array([[q]])
 
     def stationary_covariance(self) -> JAXArray:
-        """The stationary covariance of the Matern-5/2 process, Pinf"""
-        from scipy.linalg import solve_continuous_lyapunov
-
-        # TODO: find a JAX version of solve_continuous_lyapunov
-        # or figure out the general form for Pinf analytically
-        print(
-            "Warning: there does not seem to be a JAX implementation "
-            "of solve_continuous_lyapunov, so we use the scipy version here "
-            "for now. This means that this method will not be JIT-compilable."
-        )
-
-        F = self.design_matrix()
-        L = self.noise_effect_matrix()
-        Qc = self.noise()
-        LQL = L @ Qc @ L.T
-        return jnp.array(solve_continuous_lyapunov(F, -LQL))
+        """The stationary covariance of the Matern process, Pinf"""
+        # moments of the spectral density, E[w^(2k)] / lam^(2k)
+        d = self.dimension
+        moments = [1.0]
+        for k in range(d - 1):
+            moments.append(moments[-1] * (k + 0.5) / (self.nu - 1 - k))
+        Pinf = jnp.zeros((d, d))
+        for i in range(d):
+            for j in range(i % 2, d, 2):
+                m = (i + j) // 2
+                coeff = (-1) ** (m - i) * moments[m]
+                Pinf = Pinf.at[i, j].set(coeff * jnp.power(self.lam, i + j))
+        return jnp.square(self.sigma) * Pinf
-- 
2.43.0

