From 7e92c5d87b0854b6c822b656ede684a8efd99875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 01/35] fix: Constant.transition_matrix referenced a
 non-existent attribute

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..671629b 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -547,7 +547,7 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-- 
2.43.0


From 02b9c4629e90e48158b369b149ee3bf4e9a20a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 02/35] fix: Exp.transition_matrix failed for plain-number
 coordinates

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 671629b..4e02cbe 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -789,7 +789,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.array([[jnp.exp(-dt / self.scale)]])
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
-- 
2.43.0


From 67a50c3d653c95452a146696f531f61bbcc5d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 03/35] fix: scaling a kernel by a scalar raised, and its
 process noise was not scaled

---
 src/smolgp/gp.py           | 13 +++++++++++--
 src/smolgp/kernels/base.py |  7 +++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..3cc0318 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -17,7 +17,7 @@ from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
 from smolgp.kernels import StateSpaceModel, Sum, Product
-from smolgp.kernels.base import extract_leaf_kernels
+from smolgp.kernels.base import Wrapper, extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
 from smolgp.solvers import StateSpaceSolver
@@ -71,6 +71,15 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _contains_integrated(kernel: StateSpaceModel) -> bool:
+    """Whether any component is integrated, also inside a wrapper (e.g. Scale)"""
+    return any(
+        isinstance(k, IntegratedStateSpaceModel)
+        or (isinstance(k, Wrapper) and _contains_integrated(k.kernel))
+        for k in extract_leaf_kernels(kernel)
+    )
+
+
 class ConditionedStates(eqx.Module):
     """
     An object to hold the conditioned means and variances
@@ -327,7 +336,7 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = _contains_integrated(self.kernel)
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 4e02cbe..77b004f 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -195,7 +195,7 @@ class StateSpaceModel(Kernel):
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
             )
-        return Scale(kernel=self, scale=other)
+        return Scale(name=f"Scale({self.name})", kernel=self, scale=other)
 
     def __rmul__(self, other: Any) -> Kernel:
         if isinstance(other, StateSpaceModel):
@@ -205,7 +205,7 @@ class StateSpaceModel(Kernel):
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
             )
-        return Scale(kernel=self, scale=other)
+        return Scale(name=f"Scale({self.name})", kernel=self, scale=other)
 
     def evaluate(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -485,6 +485,9 @@ class Scale(Wrapper):
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
 
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
 
 ################ GP KERNEL DEFINITIONS ################
 ## TODO: tinygp base kernels not yet implemented
-- 
2.43.0


From eec56439c26a4ee1f29d368300fbbaeed4b7ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 04/35] fix: a single data or test point lost its leading axis
 (condition failed)

---
 src/smolgp/gp.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 3cc0318..f9307bc 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -71,6 +71,11 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _squeeze_outputs(x: JAXArray) -> JAXArray:
+    """Drop the singleton output dimensions, but never the (leading) data axis"""
+    return x.squeeze(axis=tuple(i for i in range(1, x.ndim) if x.shape[i] == 1))
+
+
 def _contains_integrated(kernel: StateSpaceModel) -> bool:
     """Whether any component is integrated, also inside a wrapper (e.g. Scale)"""
     return any(
@@ -162,7 +167,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return _squeeze_outputs(mu), _squeeze_outputs(var)
 
 
 class PredictedStates(eqx.Module):
@@ -202,7 +207,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return _squeeze_outputs(mu)
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -215,7 +220,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return _squeeze_outputs(var)
 
     @property
     def loc(self) -> JAXArray:
@@ -686,10 +691,10 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
-                        H, variance
-                    ).squeeze()
+                    mu = _squeeze_outputs(jax.vmap(lambda H_i, m: H_i @ m)(H, mean))
+                    var = _squeeze_outputs(
+                        jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
+                    )
 
         if return_var:
             return mu, var
-- 
2.43.0


From 25fa0f95b3ae1b79a41200e65aed3440e166616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 05/35] fix: condition(y, X_test) failed instead of predicting
 at X_test

---
 src/smolgp/gp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index f9307bc..f4632f0 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -567,7 +567,10 @@ class GaussianProcess(eqx.Module):
 
         if X_test is not None:
             # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            mean, cov = self.solver.predict(X_test, states())
+            H = jax.vmap(observation_model)(X_test)
+            mu = _squeeze_outputs(jax.vmap(lambda H_i, m: H_i @ m)(H, mean))
+            var = _squeeze_outputs(jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, cov))
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From 19c30741158ca8d7ce7fc2356a740bc2d5d0f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 06/35] fix: predict at the data ignored observation_model

---
 src/smolgp/gp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index f4632f0..073dc03 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -663,7 +663,9 @@ class GaussianProcess(eqx.Module):
                     mu = self.states.smoothed_mean
                     var = self.states.smoothed_cov
                 else:
-                    if kernel is None:
+                    if kernel is None and observation_model is not None:
+                        mu, var = self.states.project_at_data(observation_model)
+                    elif kernel is None:
                         # already computed here
                         mu, var = self.loc, self.var
                     else:
-- 
2.43.0


From c5377ec1819a3fcff4ce2b0d61f42633e3120ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 07/35] fix: unique component names failed for products and
 could collide

---
 src/smolgp/gp.py           | 19 +++++++++----------
 src/smolgp/kernels/base.py |  4 ++--
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 073dc03..a8e2fe1 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels import StateSpaceModel, Sum
 from smolgp.kernels.base import Wrapper, extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -47,22 +47,21 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     for k in leaves:
         counts[k.name] = counts.get(k.name, 0) + 1
     # counter for how many times we've used each duplicated name
-    used = {name: 1 for name, c in counts.items() if c > 1}
+    used = {name: 0 for name, c in counts.items() if c > 1}
+    taken = set(names)
 
     def _rename(k: StateSpaceModel) -> StateSpaceModel:
         if isinstance(k, Sum):
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (a product is a single component, like any other leaf)
         if counts[k.name] > 1:
-            idx = used[k.name]
-            used[k.name] += 1
-            newname = f"{k.name}_{idx}"
+            newname = k.name
+            while newname in taken:
+                used[k.name] += 1
+                newname = f"{k.name}_{used[k.name]}"
+            taken.add(newname)
             return dataclasses.replace(k, name=newname)
         else:
             # Single occurrence: leave unchanged
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 77b004f..133b3b2 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -345,10 +345,10 @@ class Product(StateSpaceModel):
     kernel1: StateSpaceModel
     kernel2: StateSpaceModel
 
-    def __init__(self, kernel1, kernel2):
+    def __init__(self, kernel1, kernel2, name: str | None = None):
         self.kernel1 = kernel1
         self.kernel2 = kernel2
-        self.name = f"Product({kernel1.name}, {kernel2.name})"
+        self.name = name or f"Product({kernel1.name}, {kernel2.name})"
 
     @property
     def dimension(self) -> int:
-- 
2.43.0


From 573165795ee776da35b200abd06a8d36d848a197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 08/35] fix: a product could not be selected as a component of
 a sum

---
 src/smolgp/kernels/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 133b3b2..d1de8a0 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -399,12 +399,6 @@ class Product(StateSpaceModel):
         Pinf2 = self.kernel2.stationary_covariance()
         return jnp.kron(Pinf1, Q2) + jnp.kron(Q1, Pinf2) - jnp.kron(Q1, Q2)
 
-    def observation_model(self, X: JAXArray, component=None) -> JAXArray:
-        """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
-
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
         H1 = self.kernel1.observation_matrix(X)
-- 
2.43.0


From ca7fadf40227dbf3478a3f9c7f3a339659cd9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 09/35] fix: evaluate_diag returned a matrix instead of a
 scalar

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index d1de8a0..5ccdeee 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From 6dec79216ac2d7172a7a916ec6bfb49268c71654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 10/35] fix: parallel filter failed for one-dimensional state
 spaces

---
 src/smolgp/solvers/parallel/kalman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..64bff84 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -65,11 +65,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -92,11 +92,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From 112986f25b17d7787aeb550f77bf23ca2af1e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 11/35] fix: parallel filter evaluated the observation model at
 time lags instead of the data

---
 src/smolgp/solvers/parallel/kalman.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 64bff84..96c696f 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -29,7 +29,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     t = kernel.coord_to_sortable(X)
 
-    asso_params = make_associative_params(Phi, H, Q, R, t, y, m0, P0)
+    asso_params = make_associative_params(Phi, H, Q, R, X, t, y, m0, P0)
     A, b, C, eta, J = parallel_kalman_filter(asso_params)
     m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, X, t, y, b, C, m0, P0)
     # return (A, b, C, eta, J), (m_pred, P_pred, v, S)
@@ -41,24 +41,24 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
+def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
     """Generate the associative parameters needed for parallel Kalman
 
     See Eqns. 10, 11, 12 from Sarkka & Garcia-Fernandez (2020)
 
     """
 
+    H_all = jax.vmap(H)(X)
+
     def make_first_params(
         Phi,
-        H,
+        H0,
         m0,
         P0,
         y0,
         r0,
     ):
         Phi0 = Phi(0, 0)
-        H0 = H(0)  # this is sort of unnecessary but we'll keep it for now
-
         m = Phi0 @ m0
         P = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
         S = H0 @ P @ H0.T + r0
@@ -76,7 +76,7 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
     def make_generic_params(
         Phi,
-        H,
+        Hk,
         Q,
         t_delta,
         y,
@@ -85,7 +85,6 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         Phi_dt = Phi(0, t_delta)
         I = jnp.eye(Phi_dt.shape[-1])
 
-        Hk = H(t_delta)  # TODO: this is wrong, pass data coordinate here
         Q_dt = Q(0, t_delta)
 
         S = Hk @ Q_dt @ Hk.T + r
@@ -101,12 +100,12 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, y[0], R[0])
+    A0, b0, C0, eta0, J0 = make_first_params(Phi, H_all[0], m0, P0, y[0], R[0])
     t_delta = jnp.diff(t)
     A, b, C, eta, J = jax.vmap(
         make_generic_params,
-        in_axes=(None, None, None, 0, 0, 0),
-    )(Phi, H, Q, t_delta, y[1:], R[1:])
+        in_axes=(None, 0, None, 0, 0, 0),
+    )(Phi, H_all[1:], Q, t_delta, y[1:], R[1:])
 
     A_all = jnp.concatenate([A0[jnp.newaxis, ...], A], axis=0)
     b_all = jnp.concatenate([b0[jnp.newaxis, ...], b], axis=0)
-- 
2.43.0


From 8153ec26d416a389a7b437c2cf71e206348764ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 12/35] fix: ParallelStateSpaceSolver.condition failed without
 return_v_S

---
 src/smolgp/solvers/parallel/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..8750232 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -63,7 +63,7 @@ class ParallelStateSpaceSolver(eqx.Module):
         """
 
         # Kalman filtering
-        kalman_results = self.Kalman(y, return_v_S=True)
+        kalman_results = self.Kalman(y, return_v_S=return_v_S)
         if return_v_S:
             m_filtered, P_filtered, m_predicted, P_predicted, v, S = kalman_results
             v_S = (v, S)
-- 
2.43.0


From d6134f50d0bd9fd6a26185bb4f2636e62af10e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 13/35] fix: ParallelStateSpaceSolver.predict failed for
 structured coordinates

---
 src/smolgp/solvers/parallel/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 8750232..f156755 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -150,7 +150,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             Kalman prediction from most recent
             filtered (not smoothed) state
             """
-            dt = X_test[ktest] - self.X[k]
+            dt = t_test[ktest] - t_states[k]
             m_k = m_filtered[k]
             P_k = P_filtered[k]
             A_star = A(0, dt)  # transition matrix from t_k to t_star
@@ -180,7 +180,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             ]  # RTS smoothed covariance at next data point
 
             # Time-lag between states
-            dt = self.X[k_next] - X_test[ktest]
+            dt = t_states[k_next] - t_test[ktest]
 
             # Transition matrix for this step
             A_k = A(0, dt)
-- 
2.43.0


From 2176ed4403da80fc4bcf956ecd5a843e901b3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 14/35] fix: parallel integrated filter ignored an
 instantaneous first observation

---
 src/smolgp/solvers/integrated/parallel/kalman.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..1a74b69 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -122,9 +122,16 @@ def make_associative_params(
         m = transition @ m0
         P = transition @ P0 @ transition.T  # Q(0,0) = 0
 
+        # The first state can already be an exposure-end
+        # (an instantaneous observation, i.e. delta=0)
+        H0 = H_array[obsid[0]]
+        S0 = H0 @ P0 @ H0.T + R[obsid[0]]
+        K0 = jnp.linalg.solve(S0.T, (P0 @ H0.T).T).T
+        is_end = stateid[0] == 1
+
         A = Reset
-        b = jnp.squeeze(m)
-        C = P
+        b = jnp.where(is_end, m0 + K0 @ (y[obsid[0]] - H0 @ m0), m)
+        C = jnp.where(is_end, P0 - K0 @ S0 @ K0.T, P)
 
         eta = jnp.zeros(state_dim)
         J = jnp.zeros_like(Phi0)
-- 
2.43.0


From bde4ef084032bcea5d1f07062468b2b6d12464e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 15/35] fix: sequential filter failed for integer coordinates

---
 src/smolgp/solvers/kalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 8168e92..132e946 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -77,7 +77,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         Delta = jax.lax.cond(
             k > 0,
             lambda i: t[i] - t[i - 1],
-            lambda _: 0.0,
+            lambda _: jnp.zeros_like(t[0]),
             k,
         )
 
-- 
2.43.0


From 9a11517d96bcec9f7c4aec134864fe927d51d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 16/35] fix: integer midpoints truncated the exposure start/end
 times

---
 src/smolgp/solvers/integrated/parallel/solver.py | 2 +-
 src/smolgp/solvers/integrated/solver.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d04ec95..c528862 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -60,7 +60,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 727d4db..e706af4 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -61,7 +61,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
-- 
2.43.0


From 5e33fc091d1d6b7b10dcee69623a2570c7030d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 17/35] fix: SHO process noise was truncated by an absolute
 threshold, depending on the units

---
 src/smolgp/kernels/base.py       |  8 +++++---
 src/smolgp/kernels/integrated.py | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5ccdeee..64b4812 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -696,10 +696,12 @@ class SHO(StateSpaceModel):
             Q11 = -expm1 - (sin2 / f + sinsq / (2 * n2 * q2)) * exp
             Q12 = Q21 = exp * (w * sinsq / (n2 * q))
             Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
-            Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
-            return jnp.where(
-                jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
+            Q = jnp.array([[Q11, Q12], [Q21, Q22]])
+            units = jnp.array([[1.0, w], [w, w2]])
+            Q = jnp.where(
+                jnp.abs(Q) < 1e-14 * units, jnp.zeros_like(Q), Q
             )  # prevent underflows
+            return jnp.square(self.sigma) * Q
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..354297b 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -401,11 +401,18 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             iQ22 = 1 / (4 * q2 * w2) * (part1 + part2 + part3)
             iQ22 = jnp.maximum(iQ22, 0.0)  # prevent underflows at dt=0
 
-            Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
-            Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
-            Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
-            Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
+            Qaug12 = jnp.array([[iQ12_1], [iQ12_2]])
+            Qaug22 = jnp.array([[iQ22]])
+            # Prevent underflows (relative to the units of each element)
+            units = jnp.array([[1 / w], [1.0]])
+            Qaug12 = jnp.where(
+                jnp.abs(Qaug12) < 1e-14 * units, jnp.zeros_like(Qaug12), Qaug12
+            )
+            Qaug22 = jnp.where(
+                jnp.abs(Qaug22) < 1e-14 / w2, jnp.zeros_like(Qaug22), Qaug22
+            )
+            Qaug12 = sigma2 * Qaug12
+            Qaug22 = sigma2 * Qaug22
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
-- 
2.43.0


From d843fc62dc0a2a739ca872c9c7ff93ac75f503d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 18/35] fix: overdamped SHO overflowed (NaN) across long gaps
 between data

---
 src/smolgp/kernels/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 64b4812..11133f2 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -649,9 +649,10 @@ class SHO(StateSpaceModel):
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
             x = n * w * dt
-            sinh = jnp.sinh(x)
-            cosh = jnp.cosh(x)
-            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+            # in units of exp(x), which overflows for large dt
+            sinh = -0.5 * jnp.expm1(-2 * x)
+            cosh = 0.5 * (1 + jnp.exp(-2 * x))
+            return jnp.exp(x - 0.5 * w * dt / q) * jnp.array(
                 [[cosh + sinh / f, sinh / (w * n)], [-w * sinh / n, cosh - sinh / f]]
             )
 
@@ -710,10 +711,11 @@ class SHO(StateSpaceModel):
             w2 = jnp.square(w)
             a = w * dt / q  # argument in exponential
             x = n * w * dt  # argument in sin/cos
-            sinh = jnp.sinh(x)
-            sinh2 = jnp.sinh(2 * x)
+            # in units of exp(2x), which overflows for large dt
+            sinh = -0.5 * jnp.expm1(-2 * x)
+            sinh2 = -0.5 * jnp.expm1(-4 * x)
             sinhsq = jnp.square(sinh)
-            exp = jnp.exp(-a)
+            exp = jnp.exp(2 * x - a)
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
             Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2)) * exp
             Q12 = Q21 = exp * (w * sinhsq / (n2 * q))
-- 
2.43.0


From 003e1db4bc9c565a6f5c6d16a8e4c5b0b3e2709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 19/35] fix: integrated smoothers were wrong when the last
 measurement is instantaneous

---
 src/smolgp/solvers/integrated/parallel/rts.py |  6 +++++-
 src/smolgp/solvers/integrated/rts.py          | 11 +++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index ed66266..9173c4b 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -128,7 +128,11 @@ def make_associative_params(
         stateid[:-1],
     )
 
-    EN, gN, LN = make_last_params(m_filter[-1], P_filter[-1])
+    # The final state (pre-reset, if it is an exposure-start,
+    # i.e. if the last measurement is instantaneous)
+    m_last = jnp.where(stateid[-1] == 0, m_pred[-1], m_filter[-1])
+    P_last = jnp.where(stateid[-1] == 0, P_pred[-1], P_filter[-1])
+    EN, gN, LN = make_last_params(m_last, P_last)
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
     g_all = jnp.concatenate([g, gN[jnp.newaxis, ...]], axis=0)
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2a98cc0..4e75e16 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -93,8 +93,11 @@ def integrated_rts_smoother(
 
         return (m_hat_k, P_hat_k), (m_hat_k, P_hat_k)
 
-    # Start smoothing from final filtered state
-    init_carry = (m_filtered[-1], P_filtered[-1])
+    # Start smoothing from final filtered state (pre-reset, if it is an exposure-start,
+    # i.e. if the last measurement is instantaneous)
+    m_last = jnp.where(stateid[-1] == 0, m_predicted[-1], m_filtered[-1])
+    P_last = jnp.where(stateid[-1] == 0, P_predicted[-1], P_filtered[-1])
+    init_carry = (m_last, P_last)
 
     # Run backward from N-2 down to 0
     K = len(t_states)  # number of iterations
@@ -102,6 +105,6 @@ def integrated_rts_smoother(
     m_smooth_reversed, P_smooth_reversed = outputs
 
     # Reverse outputs (with final filtered=smoothed state) to match time order
-    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_filtered[-1][None, :]])
-    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_filtered[-1][None, :, :]])
+    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_last[None, :]])
+    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_last[None, :, :]])
     return m_smooth, P_smooth
-- 
2.43.0


From 03c8aacb03f3b2abecc460f8ccfcd9346343298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 20/35] fix: Van Loan integrals lost all digits (or overflowed)
 over long or stiff time steps

---
 src/smolgp/helpers.py            | 22 +++++++++++++++++++---
 src/smolgp/kernels/integrated.py | 17 +++++++----------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 06631c4..5cb82de 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -1,7 +1,11 @@
+import jax
 import jax.numpy as jnp
 from jax.scipy.linalg import expm
 from tinygp.helpers import JAXArray
 
+# How often a time step can be halved for a matrix exponential
+MAX_DOUBLINGS = 48
+
 
 def block_view(A, b):
     Nb, Mb = A.shape
@@ -32,10 +36,22 @@ def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXA
     b = len(F)  # block size
     Z = jnp.zeros_like(F)
     C = jnp.block([[-F, QL], [Z, F.T]])
-    VanLoanBlock = expm(C * dt)
+
+    # exp(-F dt) grows without bound (and with it the round-off), so use a time
+    # step dt/2^n that is short compared to the process, then double it n times
+    norm = jax.lax.stop_gradient(jnp.abs(dt) * jnp.linalg.norm(F, ord=jnp.inf))
+    n = jnp.clip(jnp.ceil(jnp.log2(jnp.maximum(norm, 1.0))), 0, MAX_DOUBLINGS)
+    VanLoanBlock = expm(C * (dt / 2**n))
     G2 = VanLoanBlock[:b, b:]
     F3 = VanLoanBlock[b:, b:]
-    return F3.T @ G2
+
+    def double(carry, k):
+        A, Q = carry
+        A2, Q2 = A @ A, A @ Q @ A.T + Q
+        return (jnp.where(k < n, A2, A), jnp.where(k < n, Q2, Q)), None
+
+    (_, Q), _ = jax.lax.scan(double, (F3.T, F3.T @ G2), jnp.arange(MAX_DOUBLINGS))
+    return Q
 
 
 def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
@@ -57,7 +73,7 @@ def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
     Z = jnp.zeros((b, b))
     I = jnp.eye(b)
     C = jnp.block([[F, I], [Z, Z]])
-    VanLoanBlock = expm(C * dt)
+    VanLoanBlock = expm(C * dt, max_squarings=MAX_DOUBLINGS)
     G3 = VanLoanBlock[:b, b:]
     return G3
 
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 354297b..f375c9b 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -187,18 +187,15 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         L = self.base_model.noise_effect_matrix()
         Qc = self.base_model.noise()
 
-        vanloan = smolgp.helpers.VanLoan(F, L, Qc, dt)
-        F3 = vanloan["F3"]
-        H2 = vanloan["H2"]
-        K1 = vanloan["K1"]
+        # The model for [x; z], where dz/dt is the first element of x
+        d = self.d
+        F_aug = jnp.zeros((d + 1, d + 1)).at[:d, :d].set(F).at[d, 0].set(1.0)
+        L_aug = jnp.zeros((d + 1, L.shape[1])).at[:d].set(L)
+        Q_aug = smolgp.helpers.Q_from_VanLoan(F_aug, L_aug, Qc, dt)
 
-        M = F3.T @ H2
-        F3TK1 = F3.T @ K1
-        W = F3TK1 + F3TK1.T
-
-        Qaug12 = M[:, :1]
+        Qaug12 = Q_aug[:d, d:]
         Qaug21 = Qaug12.T
-        Qaug22 = W[:1, :1]
+        Qaug22 = Q_aug[d:, d:]
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
-- 
2.43.0


From 6666cd9796ccc69f1e272ce19a18d407177be4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 21/35] fix: integrated kernels broke down (-inf, NaN) for
 large amplitudes or short units of time

---
 src/smolgp/helpers.py            | 43 +++++++++++++++++++++-----------
 src/smolgp/kernels/integrated.py | 35 +++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 5cb82de..778515e 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -15,6 +15,27 @@ def block_view(A, b):
     return A.reshape(N, b, M, b).transpose(0, 2, 1, 3)
 
 
+def num_doublings(F: JAXArray, dt: JAXArray) -> JAXArray:
+    """How often dt must be halved to be short compared to the process"""
+    norm = jax.lax.stop_gradient(jnp.abs(dt) * jnp.linalg.norm(F, ord=jnp.inf))
+    return jnp.clip(jnp.ceil(jnp.log2(jnp.maximum(norm, 1.0))), 0, MAX_DOUBLINGS)
+
+
+def doubled(n: JAXArray, A: JAXArray, B: JAXArray, combine) -> JAXArray:
+    """
+    The integral B after doubling the time step n times, where
+    A is the transition matrix over the initial time step
+    """
+
+    def double(carry, k):
+        A, B = carry
+        A2, B2 = A @ A, combine(A, B)
+        return (jnp.where(k < n, A2, A), jnp.where(k < n, B2, B)), None
+
+    (_, B), _ = jax.lax.scan(double, (A, B), jnp.arange(MAX_DOUBLINGS))
+    return B
+
+
 def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXArray:
     """
     Van Loan method to compute Q = ∫0^dt exp(F (dt-s)) L Qc L^T exp(F^T (dt-s)) ds
@@ -39,19 +60,11 @@ def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXA
 
     # exp(-F dt) grows without bound (and with it the round-off), so use a time
     # step dt/2^n that is short compared to the process, then double it n times
-    norm = jax.lax.stop_gradient(jnp.abs(dt) * jnp.linalg.norm(F, ord=jnp.inf))
-    n = jnp.clip(jnp.ceil(jnp.log2(jnp.maximum(norm, 1.0))), 0, MAX_DOUBLINGS)
+    n = num_doublings(F, dt)
     VanLoanBlock = expm(C * (dt / 2**n))
     G2 = VanLoanBlock[:b, b:]
     F3 = VanLoanBlock[b:, b:]
-
-    def double(carry, k):
-        A, Q = carry
-        A2, Q2 = A @ A, A @ Q @ A.T + Q
-        return (jnp.where(k < n, A2, A), jnp.where(k < n, Q2, Q)), None
-
-    (_, Q), _ = jax.lax.scan(double, (F3.T, F3.T @ G2), jnp.arange(MAX_DOUBLINGS))
-    return Q
+    return doubled(n, F3.T, F3.T @ G2, lambda A, Q: A @ Q @ A.T + Q)
 
 
 def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
@@ -72,10 +85,12 @@ def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
     b = len(F)  # block size
     Z = jnp.zeros((b, b))
     I = jnp.eye(b)
-    C = jnp.block([[F, I], [Z, Z]])
-    VanLoanBlock = expm(C * dt, max_squarings=MAX_DOUBLINGS)
-    G3 = VanLoanBlock[:b, b:]
-    return G3
+    n = num_doublings(F, dt)
+    h = dt / 2**n
+    VanLoanBlock = expm(jnp.block([[F * h, I], [Z, Z]]))
+    F1 = VanLoanBlock[:b, :b]
+    G3 = VanLoanBlock[:b, b:] * h
+    return doubled(n, F1, G3, lambda A, G: A @ G + G)
 
 
 def VanLoan(
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index f375c9b..61c6f8f 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -151,11 +151,28 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         Overload this method if you wish to define the integrated transition matrix analytically.
         """
-        F = self.base_model.design_matrix()
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return Phibar_from_VanLoan(F, dt)
+        return self._numerical_Phibar(dt)
+
+    def _state_scale(self) -> JAXArray:
+        """
+        The stationary standard deviation of each element of the base state
+
+        In these units the entries of the design matrix are all rates of the process,
+        whatever the units of time and of the data, as matrix exponentials need
+        """
+        Pinf = self.base_model.stationary_covariance()
+        scale = jnp.sqrt(jnp.diag(Pinf))
+        return jax.lax.stop_gradient(jnp.where(scale > 0, scale, 1.0))
+
+    def _numerical_Phibar(self, dt: JAXArray) -> JAXArray:
+        """Phibar = ∫0^dt exp(F s) ds using the Van Loan method"""
+        F = self.base_model.design_matrix()
+        scale = self._state_scale()
+        ratio = scale[:, None] / scale[None, :]
+        return Phibar_from_VanLoan(F / ratio, dt) * ratio
 
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -191,7 +208,15 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         d = self.d
         F_aug = jnp.zeros((d + 1, d + 1)).at[:d, :d].set(F).at[d, 0].set(1.0)
         L_aug = jnp.zeros((d + 1, L.shape[1])).at[:d].set(L)
+
+        # in units in which the process is of order one
+        scale = self._state_scale()
+        scale_z = scale[0] * jax.lax.stop_gradient(jnp.where(dt > 0, dt, 1.0))
+        scale = jnp.append(scale, scale_z)
+        F_aug = F_aug / (scale[:, None] / scale[None, :])
+        L_aug = L_aug / scale[:, None]
         Q_aug = smolgp.helpers.Q_from_VanLoan(F_aug, L_aug, Qc, dt)
+        Q_aug = Q_aug * (scale[:, None] * scale[None, :])
 
         Qaug12 = Q_aug[:d, d:]
         Qaug21 = Qaug12.T
@@ -304,8 +329,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return self._numerical_Phibar(t2 - t1)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## General integral from t1->t2:
@@ -340,8 +364,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return self._numerical_Phibar(t2 - t1)
 
         # Return the appropriate form based on quality factor
         t1 = self.coord_to_sortable(X1)
-- 
2.43.0


From aab672e590aa9bc5ebe1e2d01802d2c95fad0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 22/35] fix: gradients of a critically damped IntegratedSHO
 were NaN

---
 src/smolgp/kernels/integrated.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 61c6f8f..cb40e89 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -317,9 +317,10 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         """The integrated transition matrix Phibar for the SHO process"""
 
         # Shorthand notations
-        n = self.eta
         w = self.omega
         q = self.quality
+        # unused (and zero) at critical damping, where 1/n would make gradients NaN
+        n = jnp.where(jnp.allclose(q, 0.5), 1.0, self.eta)
         a = -0.5 * w / q
         b = n * w
         a2plusb2 = jnp.square(a) + jnp.square(b)
@@ -383,9 +384,10 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        n = self.eta
         w = self.omega
         q = self.quality
+        # unused (and zero) at critical damping, where 1/n would make gradients NaN
+        n = jnp.where(jnp.allclose(q, 0.5), 1.0, self.eta)
         a = -0.5 * w / q
         b = n * w
         sigma2 = jnp.square(self.sigma)
-- 
2.43.0


From 8150983cc305150ec581afdba867c321a33dd58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 23/35] fix: the mean function was ignored by log_probability,
 condition and predict

---
 src/smolgp/gp.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index a8e2fe1..c7fc0f0 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -452,7 +452,7 @@ class GaussianProcess(eqx.Module):
             The marginal log probability of this multivariate normal model,
             evaluated at ``y``.
         """
-        _, _, _, _, v, S = self.solver.Kalman(y, return_v_S=True)
+        _, _, _, _, v, S = self.solver.Kalman(self._subtract_mean(y), return_v_S=True)
         return self._compute_log_prob(v, S)
 
     def condition(
@@ -510,7 +510,9 @@ class GaussianProcess(eqx.Module):
                 )
 
         ## Condition on the data and return likelihood ingredients
-        conditioned_results = self.solver.condition(y, return_v_S=True)
+        conditioned_results = self.solver.condition(
+            self._subtract_mean(y), return_v_S=True
+        )
 
         ## unpack into prediction at the states
         state_coords, conditioned_states, (v, S) = conditioned_results
@@ -576,12 +578,16 @@ class GaussianProcess(eqx.Module):
             X_test = self.X
             mu, var = states.project_at_data(observation_model)
 
+        # The components have no mean function of their own
+        if include_mean and kernel is None:
+            mu = mu + jax.vmap(self.mean_function)(X_test)
+
         ## Create the conditioned GP
         condGP = GaussianProcess(
             kernel=self.kernel,
             X=X_test,
             noise=self.noise,
-            # mean=self.mean,
+            mean=self.mean_function,
             solver=self.solver,
             mean_value=mu,
             variance_value=var,
@@ -696,6 +702,8 @@ class GaussianProcess(eqx.Module):
                         )
                     H = jax.vmap(H_test)(X_test)
                     mu = _squeeze_outputs(jax.vmap(lambda H_i, m: H_i @ m)(H, mean))
+                    if kernel is None and observation_model is None:
+                        mu = mu + jax.vmap(self.mean_function)(X_test)
                     var = _squeeze_outputs(
                         jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
                     )
@@ -752,6 +760,12 @@ class GaussianProcess(eqx.Module):
         #     self.solver.dot_triangular(normal_samples), 0, -1
         # )
 
+    def _subtract_mean(self, y: JAXArray) -> JAXArray:
+        """
+        The data relative to the (prior) mean function at the data coordinates
+        """
+        return y - jax.vmap(self.mean_function)(self.solver.X)
+
     @jax.jit
     def _compute_log_prob(self, v: JAXArray, S: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From c2f32f716f91b0faff78f5d0846b62627be0d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 24/35] fix: evaluating a kernel between two different
 observables gave the covariance of the wrong pair

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 11133f2..eadb542 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -219,7 +219,7 @@ class StateSpaceModel(Kernel):
         h2 = self.observation_model(X2)
         return jnp.where(
             self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
+            (h2 @ self.transition_matrix(X1, X2) @ Pinf @ h1.T).squeeze(),
             (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
         )
 
-- 
2.43.0


From 3d305fa999ad2ba2eb1a7fa4a0d020fbd3f49910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 25/35] fix: ExpSineSquared was inaccurate for large gamma (too
 few terms of the Bessel functions)

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index eadb542..353da4c 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1227,7 +1227,7 @@ class ExpSineSquared(Wrapper):
             """The noise effect matrix $L$ for the PeriodicTerm"""
             return jnp.eye(self.dimension)
 
-        def Ij(self, j, x, terms=50) -> JAXArray:
+        def Ij(self, j, x, terms=300) -> JAXArray:
             """
             The modified Bessel function of the first kind, order j, at x.
             Approximated via a truncated Taylor series expansion.
-- 
2.43.0


From c2e65f764626ed9976d07285c6db7242d030504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 26/35] fix: ExpSineSquared.error_bound was not an upper bound
 on the error

---
 src/smolgp/kernels/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 353da4c..991172a 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1172,12 +1172,16 @@ class ExpSineSquared(Wrapper):
     def error_bound(self):
         """
         An upper bound on the error in the covariance
-        from the Taylor series approximation.
+        from the Taylor series approximation, i.e. the
+        variance of all of the terms that were left out.
 
         See Sec 3.4 of Solin & Särkkä (2014).
         """
-        J = self.order
-        return jnp.exp(1 - self.scale) / jax.scipy.special.factorial(J + 1)
+        J = max(self.order, 1)  # the constant term is always there
+        arg = 1 / self.scale
+        term = self.PeriodicTerm(J, self.omega, self.scale)
+        Ij = jax.vmap(lambda j: term.Ij(j, arg))(jnp.arange(J, J + 200))
+        return 2 * jnp.square(self.sigma) * jnp.sum(Ij) / jnp.exp(arg)
 
     def stationary_covariance(self) -> JAXArray:
         return jnp.square(self.sigma) * self.kernel.stationary_covariance()
-- 
2.43.0


From 685e687e3162fc331ef2bffac4bfeb4de8e5fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 27/35] fix: IntegratedStateSpaceModel integrated the first
 state element of any base model, not its observable

---
 src/smolgp/kernels/integrated.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index cb40e89..552c22d 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -67,6 +67,10 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         """The dimension of the augmented state space model"""
         return self.d + self.num_insts
 
+    def _integrand(self) -> JAXArray:
+        """The quantity that is integrated, dz/dt, as a row acting on the base state"""
+        return self.base_model.observation_matrix(0)[0]
+
     def coord_to_sortable(self, X: JAXArray) -> JAXArray:
         """
         A helper function used to convert coordinates to sortable 1-D values
@@ -84,7 +88,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         F_aug = jnp.zeros((self.dimension, self.dimension))
         F_aug = F_aug.at[: self.d, : self.d].set(F)
         for i in range(self.num_insts):
-            F_aug = F_aug.at[self.d + i, 0].set(1.0)
+            F_aug = F_aug.at[self.d + i, : self.d].set(self._integrand())
         return F_aug
 
     def stationary_covariance(self) -> JAXArray:
@@ -112,11 +116,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         def H_latent(t: JAXArray, instid: int) -> JAXArray:
             """Observation model for latent (non-integral) state"""
-            # H_x = self.base_model.observation_model(X) # TODO: use this to get the shapes right
-            H_x = jnp.zeros(self.d).at[0].set(1)  # hardcoded 1-D version for now
-            H_aug = jnp.zeros(self.dimension)
-            H_aug = jax.lax.dynamic_update_slice(H_aug, H_x, (0,))
-            return H_aug
+            return jnp.zeros(self.dimension).at[: self.d].set(self._integrand())
 
         if isinstance(X, tuple) or isinstance(X, list):
             # Observing integral state (z) with exposure time (delta)
@@ -140,8 +140,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
     def noise_effect_matrix(self) -> JAXArray:
         """The augmented noise effect matrix, $L$"""
         L = self.base_model.noise_effect_matrix()
-        L_aug = jnp.vstack([L] + [0.0] * self.num_insts)
-        return L_aug
+        return jnp.vstack([L, jnp.zeros((self.num_insts, L.shape[1]))])
 
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -181,7 +180,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         PHI = self.base_model.transition_matrix(t1, t2)
-        INTPHI = self.integrated_transition_matrix(t1, t2)[0, :]
+        INTPHI = self._integrand() @ self.integrated_transition_matrix(t1, t2)
         PHIAUG = jnp.eye(self.dimension)
         PHIAUG = PHIAUG.at[: self.d, : self.d].set(PHI)
         for i in range(self.num_insts):
@@ -204,14 +203,15 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         L = self.base_model.noise_effect_matrix()
         Qc = self.base_model.noise()
 
-        # The model for [x; z], where dz/dt is the first element of x
+        # The model for [x; z], where dz/dt is the observable of the base model
         d = self.d
-        F_aug = jnp.zeros((d + 1, d + 1)).at[:d, :d].set(F).at[d, 0].set(1.0)
+        h = self._integrand()
+        F_aug = jnp.zeros((d + 1, d + 1)).at[:d, :d].set(F).at[d, :d].set(h)
         L_aug = jnp.zeros((d + 1, L.shape[1])).at[:d].set(L)
 
         # in units in which the process is of order one
         scale = self._state_scale()
-        scale_z = scale[0] * jax.lax.stop_gradient(jnp.where(dt > 0, dt, 1.0))
+        scale_z = jax.lax.stop_gradient(jnp.abs(h) @ scale * jnp.where(dt > 0, dt, 1.0))
         scale = jnp.append(scale, scale_z)
         F_aug = F_aug / (scale[:, None] / scale[None, :])
         L_aug = L_aug / scale[:, None]
@@ -244,8 +244,8 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
         if force_numerical:
-            Qaug12, Qaug21, Qaug22 = super(type(self), self).integrated_process_noise(
-                X1, X2
+            Qaug12, Qaug21, Qaug22 = IntegratedStateSpaceModel.integrated_process_noise(
+                self, X1, X2
             )
         else:
             Qaug12, Qaug21, Qaug22 = self.integrated_process_noise(X1, X2)
-- 
2.43.0


From 302b963dd8877bd18e610fca936b7c087e8076f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 28/35] fix: the sequential solver gave observation models the
 time only, not the full coordinate of each datum

---
 src/smolgp/solvers/kalman.py | 10 +++++-----
 src/smolgp/solvers/solver.py |  4 +---
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 132e946..6f7a331 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -31,7 +31,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
         P0 = P0.to_dense()  # needed for carry in jax.lax.scan
 
     t = kernel.coord_to_sortable(X)
-    output = kalman_filter(A, Q, H, R, t, y, m0, P0)
+    output = kalman_filter(A, Q, H, R, t, y, m0, P0, X)
     if return_v_S:
         return output
     else:
@@ -40,7 +40,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def kalman_filter(A, Q, H, R, t, y, m0, P0):
+def kalman_filter(A, Q, H, R, t, y, m0, P0, X=None):
     """
     Jax implementation of the Kalman filter algorithm
 
@@ -54,6 +54,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
     of time steps and d is the dimension of the state vector.
     """
     N = len(t)  # number of data points
+    X = t if X is None else X
 
     def step(carry, k):
         """
@@ -90,9 +91,8 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         P_pred = A_prev @ P_prev @ A_prev.T + Q_prev
 
         # Update (Eq. 4.21)
-        ## TODO: let t be a tuple and use coord_to_sortable to get time axis out
-        ##       That way we can pass the full t into H and it can use e.g. instid etc.
-        H_k = H(t[k])  # observation model for this time step
+        # observation model for this time step, given the full coordinate
+        H_k = H(jax.tree_util.tree_map(lambda x: x[k], X))
         y_pred = H_k @ m_pred  # predicted observation
         v_k = y[k] - y_pred  # "innovation" or "surprise" term
         S_k = H_k @ P_pred @ H_k.T + R[k]  # uncertainy in predicted observation
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 2801eb7..1d1a3e5 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -47,9 +47,7 @@ class StateSpaceSolver(eqx.Module):
 
     def Kalman(self, y, return_v_S=False) -> Any:
         """Wrapper for Kalman filter used with this solver"""
-        return KalmanFilter(
-            self.kernel, self.t_states, y, self.noise, return_v_S=return_v_S
-        )
+        return KalmanFilter(self.kernel, self.X, y, self.noise, return_v_S=return_v_S)
 
     def RTS(self, kalman_results) -> Any:
         """Wrapper for RTS smoother used with this solver"""
-- 
2.43.0


From f4e280e15c27dc5d6a20aa21e05b2fe27adf123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 29/35] fix: conditioning failed for coordinates that are
 neither an array of times nor a tuple

---
 src/smolgp/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index c7fc0f0..42b2a8c 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -159,7 +159,7 @@ class ConditionedStates(eqx.Module):
             var = H @ P @ H.T
             return mu, var
 
-        N = jnp.array(self.X).shape[-1]
+        N = len(jax.tree_util.tree_leaves(self.X)[0])
         ends_idx = jnp.nonzero(self.stateid == 1, size=N)[0]
         sort = jnp.argsort(self.obsid[ends_idx])
         idx = ends_idx[sort]
-- 
2.43.0


From bd30cc4e8bd7b371b21a6f27ed046abad2c22e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 30/35] fix: conditioning again after condition(y, X_test)
 mixed up the data and the test coordinates

---
 src/smolgp/gp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 42b2a8c..bc61e68 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -538,7 +538,7 @@ class GaussianProcess(eqx.Module):
         # so we can use them to make quick predictions at test
         # points with subsequent calls to self.predict
         states = ConditionedStates(
-            self.X,
+            self.solver.X,
             t_states,
             instid,
             obsid,
@@ -575,7 +575,7 @@ class GaussianProcess(eqx.Module):
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-            X_test = self.X
+            X_test = self.solver.X
             mu, var = states.project_at_data(observation_model)
 
         # The components have no mean function of their own
-- 
2.43.0


From b4059fdb678ff31eb2f70c92c99992dadac5a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 31/35] fix: correlated noise models were accepted and their
 correlations silently ignored

---
 src/smolgp/gp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index bc61e68..33173c9 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -14,7 +14,7 @@ import jax.numpy as jnp
 
 from tinygp import kernels, means
 from tinygp.helpers import JAXArray
-from tinygp.noise import Diagonal, Noise
+from tinygp.noise import Banded, Dense, Diagonal, Noise
 
 from smolgp.kernels import StateSpaceModel, Sum
 from smolgp.kernels.base import Wrapper, extract_leaf_kernels
@@ -298,7 +298,8 @@ class GaussianProcess(eqx.Module):
         noise (Noise, optional): Used to implement more expressive observation
             noise models than those supported by just ``diag``. This can be any
             object that implements the :class:`tinygp.noise.Noise` protocol. If
-            this is provided, the ``diag`` parameter will be ignored.
+            this is provided, the ``diag`` parameter will be ignored. The noise
+            must be independent between data (i.e. diagonal).
         mean (Callable, optional): A callable or constant mean function that
             will be evaluated with the ``X`` as input: ``mean(X)``
         solver: The solver type to be used to execute the required linear
@@ -378,6 +379,11 @@ class GaussianProcess(eqx.Module):
         if noise is None:
             diag = _default_diag(self.mean) if diag is None else diag
             noise = Diagonal(diag=jnp.broadcast_to(diag, self.mean.shape))
+        if isinstance(noise, (Banded, Dense)):
+            raise ValueError(
+                "State space solvers require observation noise that is independent "
+                "between data; correlated noise models are not supported"
+            )
         self.noise = noise
 
         # Set up the solver
-- 
2.43.0


From d1fa2aa8bdf8f668f11e610d7f0a90affdedb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 32/35] fix: the coordinates of the data were converted to
 sortable ones twice when conditioning

---
 src/smolgp/gp.py             | 5 +++--
 src/smolgp/solvers/solver.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 33173c9..3fed3f3 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -534,8 +534,9 @@ class GaussianProcess(eqx.Module):
         ):
             t_states, instid, obsid, stateid = state_coords
         else:
-            # If not integrated, t_states = X and id arrays are 'defaulted'
-            t_states = self.kernel.coord_to_sortable(state_coords)
+            # If not integrated, the states are at the (sortable)
+            # coordinates of the data and id arrays are 'defaulted'
+            t_states = state_coords
             instid = jnp.zeros_like(t_states, dtype=int)
             obsid = jnp.arange(len(t_states), dtype=int)
             stateid = jnp.ones_like(t_states, dtype=int)  # all "have data"
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 1d1a3e5..a538e6e 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -51,7 +51,7 @@ class StateSpaceSolver(eqx.Module):
 
     def RTS(self, kalman_results) -> Any:
         """Wrapper for RTS smoother used with this solver"""
-        return RTSSmoother(self.kernel, self.t_states, kalman_results)
+        return RTSSmoother(self.kernel, self.X, kalman_results)
 
     def condition(self, y, return_v_S=False) -> JAXArray:
         """
-- 
2.43.0


From 0fe9ef4de2a4f00d59580f5ec66b21ee2d20044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 33/35] fix: smoothing was wrong when the predicted covariance
 is singular (exposures that start together, processes without noise)

---
 src/smolgp/helpers.py                         | 34 +++++++++++++++++++
 src/smolgp/solvers/integrated/parallel/rts.py |  7 ++--
 .../solvers/integrated/parallel/solver.py     |  3 +-
 src/smolgp/solvers/integrated/rts.py          |  6 ++--
 src/smolgp/solvers/integrated/solver.py       |  3 +-
 5 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 778515e..6203781 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -36,6 +36,40 @@ def doubled(n: JAXArray, A: JAXArray, B: JAXArray, combine) -> JAXArray:
     return B
 
 
+def smoothing_gain(P: JAXArray, A: JAXArray, P_pred: JAXArray) -> JAXArray:
+    """
+    The RTS smoothing gain, P A^T P_pred^-1
+
+    P_pred is singular when integrals of several instruments were reset at the same time,
+    or when the process has no noise. Elements of the next state that are determined by
+    those before them tell nothing new, so they are given no gain (a generalized inverse)
+
+    Parameters:
+        P: covariance of the state
+        A: transition matrix to the next state
+        P_pred: predicted covariance of the next state
+    """
+    # in units in which all variances are one
+    var = jnp.diag(P_pred)
+    scale = jnp.sqrt(jnp.where(var > 0, var, 1.0))
+    C = P_pred / (scale[:, None] * scale[None, :])
+
+    # eliminate the elements one by one, noting those with nothing left
+    tol = 10 * len(C) * jnp.finfo(C.dtype).eps
+
+    def eliminate(k, carry):
+        left, new = carry
+        ok = left[k, k] > tol
+        update = jnp.outer(left[:, k], left[k, :]) / jnp.where(ok, left[k, k], 1.0)
+        return jnp.where(ok, left - update, left), new.at[k].set(ok)
+
+    new = jnp.zeros(len(C), dtype=bool)
+    _, new = jax.lax.fori_loop(0, len(C), eliminate, (jax.lax.stop_gradient(C), new))
+    C = jnp.where(new[:, None] & new[None, :], C, jnp.eye(len(C)))
+    B = jnp.where(new, P @ A.T / scale, 0.0)
+    return jnp.linalg.solve(C.T, B.T).T / scale
+
+
 def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXArray:
     """
     Van Loan method to compute Q = ∫0^dt exp(F (dt-s)) L Qc L^T exp(F^T (dt-s)) ds
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index 9173c4b..8be78bb 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def ParallelIntegratedRTSSmoother(
     kernel,
@@ -101,10 +103,7 @@ def make_associative_params(
             end_state,
         )
 
-        A = Phik @ Pk @ Phik.T + Qk
-        b = Pk @ Phik.T
-
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = smoothing_gain(Pk, Phik, Phik @ Pk @ Phik.T + Qk)
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
 
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index c528862..29b6a7f 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,6 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -225,7 +226,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 4e75e16..818064e 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
     """
@@ -72,14 +74,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k_pre @ AR.T).T).T
+            G_k = smoothing_gain(P_k_pre, AR, P_pred_next)
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T
+            G_k = smoothing_gain(P_k, A_k, P_pred_next)
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index e706af4..11f4a81 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,6 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -220,7 +221,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
-- 
2.43.0


From 8676950b30b4a353a8c69e9ca4a714f7a93a8a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 34/35] fix: smoothing exposures broke down for long units of
 time

---
 src/smolgp/kernels/integrated.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 552c22d..2bc1cbf 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -94,7 +94,11 @@ class IntegratedStateSpaceModel(StateSpaceModel):
     def stationary_covariance(self) -> JAXArray:
         """The augmented stationary covariance of the process, Pinf"""
         Pinf = self.base_model.stationary_covariance()
-        Pinf_aug = jnp.diag(jnp.ones(self.dimension)).at[: self.d, : self.d].set(Pinf)
+        F = self.base_model.design_matrix()
+        scale = self._state_scale()
+        rate = jnp.max(jnp.abs(F) * scale[None, :] / scale[:, None])
+        var_z = jnp.square(jnp.abs(self._integrand()) @ scale / jnp.where(rate > 0, rate, 1.0))
+        Pinf_aug = jnp.diag(jnp.full(self.dimension, var_z)).at[: self.d, : self.d].set(Pinf)
         return Pinf_aug
 
     def observation_matrix(self, X: JAXArray) -> JAXArray:
-- 
2.43.0


From d2611ea94b65d7a5fba6b21b59a18dc4a01a18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:32 +0000
Subject: [PATCH 35/35] fix: default transition matrices and process noise were
 inaccurate for long steps and extreme units

---
 src/smolgp/kernels/base.py       | 34 ++++++++++++++++++++++++++++----
 src/smolgp/kernels/integrated.py | 11 ++---------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 991172a..9fb58cd 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -26,7 +26,7 @@ from tinygp.helpers import JAXArray
 from tinygp.kernels.base import Kernel
 from tinygp.solvers.quasisep.block import Block
 
-from smolgp.helpers import Q_from_VanLoan
+from smolgp.helpers import Q_from_VanLoan, doubled, num_doublings
 
 
 def extract_leaf_kernels(kernel, all=False):
@@ -133,7 +133,22 @@ class StateSpaceModel(Kernel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return expm(F * dt)
+        scale = self._state_scale()
+        ratio = scale[:, None] / scale[None, :]
+        # expm is limited to (and most accurate over) short steps
+        n = num_doublings(F / ratio, dt)
+        A = expm(F / ratio * (dt / 2**n))
+        return doubled(n, A, A, lambda A, _: A @ A) * ratio
+
+    def _state_scale(self) -> JAXArray:
+        """
+        The stationary standard deviation of each element of the state
+
+        In these units the entries of the design matrix are all rates of the process,
+        whatever the units of time and of the data, as matrix exponentials need
+        """
+        scale = jnp.sqrt(jnp.diag(self.stationary_covariance()))
+        return jax.lax.stop_gradient(jnp.where(scale > 0, scale, 1.0))
 
     def process_noise(self, X1: JAXArray, X2: JAXArray, use_van_loan=False) -> JAXArray:
         """
@@ -155,7 +170,9 @@ class StateSpaceModel(Kernel):
             F = self.design_matrix()
             L = self.noise_effect_matrix()
             Qc = self.noise()
-            return Q_from_VanLoan(F, L, Qc, dt)
+            scale = self._state_scale()
+            Q = Q_from_VanLoan(F / (scale[:, None] / scale), L / scale[:, None], Qc, dt)
+            return Q * (scale[:, None] * scale)
         else:
             # See Eq. 7 in Solin & Sarkka 2014
             # https://users.aalto.fi/~ssarkka/pub/solin_mlsp_2014.pdf
@@ -1372,4 +1389,13 @@ class Matern(StateSpaceModel):
         L = self.noise_effect_matrix()
         Qc = self.noise()
         LQL = L @ Qc @ L.T
-        return jnp.array(solve_continuous_lyapunov(F, -LQL))
+        # in units in which the process is of order one
+        scale = self._state_scale()
+        F = F / (scale[:, None] / scale) / self.lam
+        LQL = LQL / (scale[:, None] * scale) / self.lam
+        Pinf = jnp.array(solve_continuous_lyapunov(F, -LQL))
+        return Pinf * (scale[:, None] * scale)
+
+    def _state_scale(self) -> JAXArray:
+        """The order of magnitude of each element of the state (up to sigma)"""
+        return jax.lax.stop_gradient(jnp.power(self.lam, jnp.arange(self.dimension)))
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 2bc1cbf..fde1468 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -160,15 +160,8 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         return self._numerical_Phibar(dt)
 
     def _state_scale(self) -> JAXArray:
-        """
-        The stationary standard deviation of each element of the base state
-
-        In these units the entries of the design matrix are all rates of the process,
-        whatever the units of time and of the data, as matrix exponentials need
-        """
-        Pinf = self.base_model.stationary_covariance()
-        scale = jnp.sqrt(jnp.diag(Pinf))
-        return jax.lax.stop_gradient(jnp.where(scale > 0, scale, 1.0))
+        """The units of the elements of the base state"""
+        return self.base_model._state_scale()
 
     def _numerical_Phibar(self, dt: JAXArray) -> JAXArray:
         """Phibar = ∫0^dt exp(F s) ds using the Van Loan method"""
-- 
2.43.0

