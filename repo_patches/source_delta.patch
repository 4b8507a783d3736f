From dd9787195de38423e6c6026b657c8e5593c4e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 01/28] fix: scale the curvature term of the GD^p Hessian by
 the distance power for p != 2

---
 hvd/delta_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..ebe2e30 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -104,7 +104,7 @@ class GenerationalDistance:
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0


From 54da4b0bc258224fec11cac2e102375c9c61c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 02/28] fix: order tied points consistently in the hypervolume
 dimension sweep

---
 hvd/hypervolume.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index f19fd9a..41a5ee9 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -145,6 +145,9 @@ class HyperVolume:
         """Sets up the list data structure needed for calculation."""
         dimensions = len(self.ref)
         nodeList = MultiList(dimensions)
+        # NOTE: tied coordinates must be ordered consistently in all lists; otherwise two tied points
+        # can mark each other as `ignore`d. The lexicographic order here is the final tie-breaker.
+        front = sorted(front, key=tuple)
         nodes = [MultiList.Node(dimensions, point) for point in front]
         for i in range(dimensions):
             self.sortByDimension(nodes, i)
@@ -154,7 +157,7 @@ class HyperVolume:
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
         # build a list of tuples of (point[i], node)
-        idx = np.argsort([node.cargo[i] for node in nodes])
+        idx = np.argsort([node.cargo[i] for node in nodes], kind="stable")
         # decorated = [(node.cargo[i], node) for node in nodes]
         # sort by this value
         # decorated.sort()
-- 
2.43.0


From f13de7b312bdd780df158d7689cc009bca8dc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 03/28] fix: return an empty subset when every row is weakly
 dominated by a duplicate

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..4ae39e4 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -241,7 +241,7 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
             )
         if cond:
             pareto_indices.append(idx)
-    pareto_indices = np.array(pareto_indices)
+    pareto_indices = np.array(pareto_indices, dtype=int)
     pareto_front = pareto_front[pareto_indices].copy()
     return pareto_indices if return_index else pareto_front
 
-- 
2.43.0


From 01c4a85564cbafd8e307bacad5ac58483602ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:22 +0000
Subject: [PATCH 04/28] fix: orient caller-supplied objective values and
 Jacobians for maximisation

---
 hvd/hypervolume_derivatives.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..f0a8d07 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:  # the callbacks are negated while `Y` is in the user's orientation
+            Y = -1 * np.asarray(Y)
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,14 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:  # the callbacks are negated while `Y` is in the user's orientation
+            Y = -1 * np.asarray(Y)
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        if YdX is None:
+            YdX = np.array([self.jac(x) for x in X])
+        else:
+            YdX = YdX.copy() if self.minimization else -1 * YdX
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From 58c003a5769cb18252b556126173315bca5b3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 05/28] fix: let State.save drop the Jacobian callback under
 its current name

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6af91d3 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -281,7 +281,7 @@ class State:
         with open(filename + ".pkl", "wb") as file:
             __dict__ = self.__dict__.copy()
             del __dict__["func"]
-            del __dict__["_jac"]
+            del __dict__["jac"]
             del __dict__["h"]
             del __dict__["h_jac"]
             del __dict__["h_hess"]
-- 
2.43.0


From 17b230e37afc4272938aca1aa36ccbbb34d561d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 06/28] fix: allow slicing a State whose optional derivatives
 were not computed

---
 hvd/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 6af91d3..be3feb4 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -308,9 +308,10 @@ class State:
         obj.n_jac_evals = obj.n_jac_evals
         obj.X = obj.X[indices]
         obj.Y = obj.Y[indices]
-        obj.J = obj.J[indices]
+        obj.J = obj.J[indices] if obj.J is not None else None
         obj.cstr_value = obj.cstr_value[indices]
         obj.active_indices = obj.active_indices[indices]
         obj.cstr_grad = obj.cstr_grad[indices]
-        obj.cstr_hess = obj.cstr_hess[indices]
+        if hasattr(obj, "cstr_hess"):  # not computed when updated with `compute_hessian=False`
+            obj.cstr_hess = obj.cstr_hess[indices]
         return obj
-- 
2.43.0


From eec6b83568566c8ca8d36bb2703dd234168ea4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 07/28] fix: accept zero-sized allocations when interpolating a
 component

---
 hvd/rsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..a456ffc 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -44,6 +44,8 @@ def interpolate_tst(X: np.ndarray, Nf: int) -> np.ndarray:
     keep[1:] = np.any(np.diff(P, axis=0) != 0, axis=1)
     P = P[keep]
     n = len(P)
+    if Nf <= 0:  # a short component can be allocated no point at all
+        return np.zeros((0, p))
     if n < 2:
         return np.repeat(P[:1], Nf, axis=0)
 
-- 
2.43.0


From c8ec685fddf18d06757e2ddc18d5e006e25ff433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 08/28] fix: divide the points equally when all components have
 zero length

---
 hvd/rsg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index a456ffc..74d9306 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -96,7 +96,9 @@ def RSG(Py: np.ndarray, Nf: int, eps: float = 0.08, minpts: int = 2) -> np.ndarr
 
         for i in range(num_cluesters):
 
-            Nf_interpolate_tst = int(_matlab_round(Nf * comp_length[0, i] / total_length))
+            # if every component is degenerate, the points are divided equally
+            share = comp_length[0, i] / total_length if total_length > 0 else 1 / num_cluesters
+            Nf_interpolate_tst = int(_matlab_round(Nf * share))
             interpolate_tst_I = interpolate_tst(C[i], Nf_interpolate_tst)
             I.append(interpolate_tst_I)
 
-- 
2.43.0


From fa8ddfbfe72377b6c62b9a1dbbba68fb79a2c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 09/28] fix: keep the reference matching fixed during the DpN
 line search

---
 hvd/newton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..844e7e5 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -621,9 +621,9 @@ class DpN:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.active_indicator.re_match = False
+            self.ref.re_match = False
             R_ = self._compute_R(state)[0][i]
-            self.active_indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
-- 
2.43.0


From dd3bd93496f25b9a8255095c61f403c170ee8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 10/28] fix: keep the reference matching fixed during the MMD
 line searches

---
 hvd/mmd_newton.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..90f18c3 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -301,9 +301,9 @@ class MMDNewton:
         def phi_func(alpha):
             state_ = deepcopy(self.state)
             state_.update(state_.X + alpha * step)
-            self.indicator.re_match = False
+            self.ref.re_match = False
             R_ = self._compute_R(state_)[0]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             return np.linalg.norm(R_)
 
         step_size = min(max_step_size) if max_step_size is not None else 1
@@ -337,10 +337,10 @@ class MMDNewton:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.indicator.re_match = False
+            self.ref.re_match = False
             # this step takes too long since we compute the gradient at all points while only one changes
             R_ = self._compute_R(state)[0][i]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
-- 
2.43.0


From 836066c11b165983c19085f3aebc0af825c48c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 11/28] fix: return the full step size when no step component
 points towards a bound

---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 844e7e5..cc76d88 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -273,7 +273,7 @@ class HVN:
         normal_vectors = np.c_[np.eye(dim * N), -1 * np.eye(dim * N)]
         dist = np.r_[np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())]
         v = step.ravel() @ normal_vectors
-        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0])))
+        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0]), initial=np.inf))
 
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
         def phi_func(alpha: float) -> float:
-- 
2.43.0


From 847c4483fc7f7c7953792eb8fe8564e01a3bc2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 12/28] fix: project the DpN step onto all active bounds of a
 point, not only the first one

---
 hvd/newton.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index cc76d88..835d7d2 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -679,9 +679,9 @@ class DpN:
         # project Newton's direction onto the box boundary
         idx = max_step_size == 0
         if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
-            proj_axis = normal_vectors[:, proj_dim]
-            step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
+            # remove every step component that points out of an active bound
+            outward = (s == 0).reshape(len(s), 2, -1).any(axis=1)
+            step_primal[outward] = 0
             step[:, : self.dim_p] = step_primal
             # re-calculate the `max_step_size` for projected directions
             v = step[:, : self.dim_p] @ normal_vectors
-- 
2.43.0


From c29de223b529b2babe2ae25ff742de6d58d8ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 13/28] fix: skip the global MMD line search only when the
 whole step vanishes

---
 hvd/mmd_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 90f18c3..6f89c07 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -295,7 +295,7 @@ class MMDNewton:
     ) -> float:
         """backtracking line search with Armijo's condition. Global step-size control"""
         c1 = 1e-6
-        if 11 < 2 or np.any(np.isclose(np.median(step[:, : self.dim_p]), np.finfo(np.double).resolution)):
+        if 11 < 2 or np.all(np.isclose(step[:, : self.dim_p], 0)):
             return np.array([1])
 
         def phi_func(alpha):
-- 
2.43.0


From 46361617eeb1917f49df0fb588da1cc8d1fc7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 14/28] fix: return a positive definite matrix when doubling
 the Hessian shift does not suffice

---
 hvd/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 4ae39e4..90fbbe0 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -122,8 +122,8 @@ def precondition_hessian(H: np.ndarray) -> np.ndarray:
             except:
                 tau = max(2 * tau, beta)
         else:
-            print("Pre-conditioning the HV Hessian failed")
-            return H + tau * I
+            # the doubled shift is still too small for the scale of `H`; its norm bounds the spectral radius
+            return H + 2 * np.linalg.norm(H) * I
     return L @ (L.T)
 
 
-- 
2.43.0


From d6aabe0610a580dd4141975e151f088a1619e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 15/28] fix: pair each cluster with the component assigned to
 it and skip empty clusters

---
 hvd/reference_set.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..3e83da2 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import numpy as np
 from scipy.optimize import linear_sum_assignment
@@ -59,7 +59,7 @@ class ReferenceSet:
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -132,18 +132,21 @@ class ReferenceSet:
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
-        n, m = self.n_components, len(Y)
+    def _match_components(self, Y: Dict[int, np.ndarray]) -> List[Tuple[int, int]]:
+        """match the components of the reference set to the non-empty clusters of `Y`
+
+        Returns:
+            List[Tuple[int, int]]: pairs of the index of a component and that of the cluster matched to it
+        """
+        clusters = [j for j in range(len(Y)) if len(Y[j]) > 0]
+        n, m = self.n_components, len(clusters)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
-        else:
-            # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
-            cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
-            cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
-        return idx
+            return [(0, clusters[0])]
+        # match the clusters of `X` and `Y`
+        cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in clusters])
+        rows, cols = linear_sum_assignment(cost.reshape(n, m))
+        return [(i, clusters[j]) for i, j in zip(rows, cols)]
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
         """cluster the reference components with k-medoids method
-- 
2.43.0


From ce20d1233d3a7749ef9a1d745490c279ddfb9d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 16/28] fix: index sets of CF1-CF7 for an odd number of
 variables

---
 hvd/problems/cf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 7bd568f..750e397 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -46,8 +46,8 @@ class CF1(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = jnp.tile(x[:, [0]], (1, len(J1))) ** (
             0.5 * (1 + 3 * (jnp.tile(J1 + 1, (N, 1)) - 2) / (D - 2))
         )
@@ -103,8 +103,8 @@ class CF2(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = (
             x[:, J1] - jnp.sin(6 * pi * jnp.tile(x[:, [0]], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D)
         ) ** 2
@@ -161,8 +161,8 @@ class CF3(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = x - jnp.sin(6 * pi * jnp.tile(x[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         term1 = jnp.prod(jnp.cos(20 * Y[:, J1] * pi / jnp.sqrt(jnp.tile(J1 + 1, (N, 1)))), 1)
         term2 = jnp.prod(jnp.cos(20 * Y[:, J2] * pi / jnp.sqrt(jnp.tile(J2 + 1, (N, 1)))), 1)
@@ -212,8 +212,8 @@ class CF4(CMOP):
         X = jnp.clip(X, self.xl, self.xu)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = X - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         temp = Y[:, 1] < 3 / 2 * (1 - jnp.sqrt(1 / 2))
         h = jax.numpy.where(
@@ -270,8 +270,8 @@ class CF5(CMOP):
         X = jnp.atleast_2d(X)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D
         )
@@ -333,8 +333,8 @@ class CF6(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D
         )
@@ -398,8 +398,8 @@ class CF7(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - jnp.cos(6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D)
         Y2 = X[:, J2] - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, len(J2))) + (J2 + 1) * pi / D)
         h1 = 2 * Y1**2 - jnp.cos(4 * pi * Y1) + 1
-- 
2.43.0


From f0f766d7d11171bf087146897282f57052776688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 17/28] fix: second branch of the distance function of CF4

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 750e397..1f3415c 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -219,7 +219,7 @@ class CF4(CMOP):
         h = jax.numpy.where(
             temp[0],
             jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, abs(Y[:, 1]), (Y[:, 2:] ** 2).ravel()])),
-            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, jnp.array([0.125]), (Y[:, 2:] ** 2).ravel()])),
+            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, 0.125 + (Y[:, 1] - 1) ** 2, (Y[:, 2:] ** 2).ravel()])),
         )
         F1 = X[:, 0] + jnp.sum(h[:, J1], 1)
         F2 = 1 - X[:, 0] + jnp.sum(h[:, J2], 1)
-- 
2.43.0


From f4972ccab8f61c4e98fe577ed3d0169cd16ec5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 18/28] fix: report the feasible points as the Pareto front of
 CF1

---
 hvd/problems/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 1f3415c..cb31a34 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -63,7 +63,8 @@ class CF1(CMOP):
         return 1 - y[:, 0] - y[:, 1] + jnp.abs(jnp.sin(10 * jnp.pi * (y[:, 0] - y[:, 1] + 1)))
 
     def get_pareto_front(self, N: int = 1000) -> np.ndarray:
-        f = np.linspace(0, 1, N)
+        # only these 21 points of the unconstrained front are feasible
+        f = np.arange(21) / 20
         return np.c_[f, 1 - f]
 
 
-- 
2.43.0


From 96da2f7782b7de055b73d357d299173e128cc929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 19/28] fix: clip elementwise in the Pareto front of CF8

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index cb31a34..040a40d 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -480,7 +480,7 @@ class CF8(UF8):
             R[int(i * N / 5) : int((i + 1) * N / 5), 0] = np.sqrt(
                 i / 4 * (1 - R[int(i * N / 5) : int((i + 1) * N / 5), 2] ** 2)
             )
-        R[:, 1] = np.sqrt(np.max(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
+        R[:, 1] = np.sqrt(np.maximum(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
         return R
 
 
-- 
2.43.0


From 2f853398ecea98f9574c90d17e54908d52717b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 20/28] fix: ZDT6 reaches its Pareto front on its Pareto set

---
 hvd/problems/zdt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 1dd6a3b..dbcef9c 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -107,7 +107,7 @@ class ZDT6(ZDT):
 
     def _objective(self, x: jnp.ndarray) -> jnp.ndarray:
         f1 = 1 - jnp.exp(-4 * x[0]) * jnp.sin(6 * jnp.pi * x[0]) ** 6
-        g = 1 + 9 * jnp.maximum(jnp.mean(x[1:]), _EPS) ** 0.25
+        g = 1 + 9 * jnp.maximum(jnp.mean(x[1:]), _EPS**4) ** 0.25
         return jnp.array([f1, g * (1 - (f1 / g) ** 2)])
 
     def get_pareto_front(self, n_pareto_points: int = 100) -> np.ndarray:
-- 
2.43.0


From 785c971b7695260922de7e2811bee62a35c0dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 21/28] fix: DTLZ6 reaches its Pareto front on its Pareto set

---
 hvd/problems/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 97638d4..e3d67b3 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -10,7 +10,7 @@ from .base import CMOP
 from .utils import generic_sphere, get_ref_dirs
 
 # NOTE: `eps` is to cap the decision variables below for DTLZ6 since it is not differentiable at x = 0
-eps = 1e-30
+eps = 1e-150
 
 
 class _DTLZ(CMOP):
-- 
2.43.0


From aa244c3baf7a7fd3a4269805af5f8209e39d6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 22/28] fix: leave the dominated points out of the Pareto set
 of ZDT3

---
 hvd/problems/zdt.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index dbcef9c..3421f6f 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -67,6 +67,15 @@ class ZDT3(ZDT1):
         r = x[0] / g
         return jnp.array([x[0], g * (1 - jnp.sqrt(jnp.maximum(r, _EPS)) - r * jnp.sin(10 * jnp.pi * x[0]))])
 
+    def get_pareto_set(self, n_pareto_points: int = 100, kind: str = "linear") -> np.ndarray:
+        X = super().get_pareto_set(n_pareto_points, kind)
+        # only the `regions` of the first variable are Pareto optimal
+        ends = np.cumsum(np.diff(self.regions, axis=1).ravel())
+        t = X[:, 0] * ends[-1]
+        idx = np.searchsorted(ends, t)
+        X[:, 0] = self.regions[idx, 1] - (ends[idx] - t)
+        return X
+
     def get_pareto_front(self, n_points: int = 100, flatten: bool = True) -> np.ndarray:
         blocks = []
         for lo, hi in self.regions:
-- 
2.43.0


From e21189d0f89cea26da86a5d128ea57b1dc6d1122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 23/28] fix: leave the dominated points out of the Pareto set
 of DTLZ7

---
 hvd/problems/dtlz.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index e3d67b3..19b451c 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -154,6 +154,10 @@ class DTLZ7(_DTLZ):
 
     def get_pareto_set(self, N: int = 1000) -> np.ndarray:
         x = np.random.rand(N, self.n_var - self.k)
+        # each position variable is Pareto optimal on two intervals only
+        a, b, c = 0.2514118360889171, 0.6316265307000614, 0.8594008566447239
+        x = x * (a + c - b)
+        x = np.where(x <= a, x, x - a + b)
         return np.c_[x, np.tile(0, (N, self.k))]
 
     def get_pareto_front(self):
-- 
2.43.0


From d31f07f99c99c5966610f03e4351c7ffa6c2d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 24/28] fix: Pareto set and front of the equality-constrained
 DTLZ problems satisfy the constraint

---
 hvd/problems/eqdtlz.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/hvd/problems/eqdtlz.py b/hvd/problems/eqdtlz.py
index bbdb7ff..4716cb0 100644
--- a/hvd/problems/eqdtlz.py
+++ b/hvd/problems/eqdtlz.py
@@ -37,6 +37,17 @@ class ConstrainedDTLZ(_DTLZ):
         xx = x[0 : M - 1] - 0.5
         return jnp.abs(jnp.sum(xx**2) - r**2) - 1e-4
 
+    def get_pareto_set(self, N: int = 1000) -> np.ndarray:
+        X = super().get_pareto_set(N)
+        # the feasible positions form two concentric spheres
+        xx = np.random.randn(N, self.n_obj - 1)
+        radius = np.sqrt(0.4**2 + np.random.choice([-1e-4, 1e-4], (N, 1)))
+        X[:, : self.n_obj - 1] = 0.5 + radius * xx / np.linalg.norm(xx, axis=1, keepdims=True)
+        return X
+
+    def get_pareto_front(self, N: int = 1000, **kwargs) -> np.ndarray:
+        return self.objective_batch(self.get_pareto_set(N))
+
 
 class IDTLZ1(InvertedDTLZ, DTLZ1):
     pass
@@ -54,33 +65,33 @@ class IDTLZ4(InvertedDTLZ, DTLZ4):
     pass
 
 
-class Eq1DTLZ1(DTLZ1, ConstrainedDTLZ):
+class Eq1DTLZ1(ConstrainedDTLZ, DTLZ1):
     pass
 
 
-class Eq1IDTLZ1(IDTLZ1, ConstrainedDTLZ):
+class Eq1IDTLZ1(ConstrainedDTLZ, IDTLZ1):
     pass
 
 
-class Eq1DTLZ2(DTLZ2, ConstrainedDTLZ):
+class Eq1DTLZ2(ConstrainedDTLZ, DTLZ2):
     pass
 
 
-class Eq1IDTLZ2(IDTLZ2, ConstrainedDTLZ):
+class Eq1IDTLZ2(ConstrainedDTLZ, IDTLZ2):
     pass
 
 
-class Eq1DTLZ3(DTLZ3, ConstrainedDTLZ):
+class Eq1DTLZ3(ConstrainedDTLZ, DTLZ3):
     pass
 
 
-class Eq1IDTLZ3(IDTLZ3, ConstrainedDTLZ):
+class Eq1IDTLZ3(ConstrainedDTLZ, IDTLZ3):
     pass
 
 
-class Eq1DTLZ4(DTLZ4, ConstrainedDTLZ):
+class Eq1DTLZ4(ConstrainedDTLZ, DTLZ4):
     pass
 
 
-class Eq1IDTLZ4(IDTLZ4, ConstrainedDTLZ):
+class Eq1IDTLZ4(ConstrainedDTLZ, IDTLZ4):
     pass
-- 
2.43.0


From 95e75703096f995e1d278835df6228d2353ae482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 25/28] fix: WFG1 reaches its Pareto front on its Pareto set

---
 hvd/problems/wfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/problems/wfg.py b/hvd/problems/wfg.py
index 1919c14..35d3d5e 100644
--- a/hvd/problems/wfg.py
+++ b/hvd/problems/wfg.py
@@ -20,6 +20,8 @@ def _correct_to_01(x: jnp.ndarray, epsilon: float = 1.0e-10) -> jnp.ndarray:
 
 def _shift_linear(value: jnp.ndarray, shift: float = 0.35) -> jnp.ndarray:
     result = jnp.abs(value - shift) / jnp.abs(jnp.floor(shift - value) + shift)
+    # WFG1 raises the result to the power 0.02, which blows up the rounding error at the optimum
+    result = jnp.where(jnp.abs(value - shift) < 1e-15, 0.0, result)
     return _correct_to_01(result)
 
 
-- 
2.43.0


From 90004b5c75e1ad3b4f890733da3e1a78290b7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 26/28] fix: Monte Carlo hypervolume contributions of SMS-EMOA
 cannot be traced by jit

---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..7a5db29 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From a0d10d2cfdfebc43b3129b8f03ef676c806fc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 27/28] fix: constraint handling of MOEA/D with a single
 neighbour

---
 hvd/moea/moead.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/moea/moead.py b/hvd/moea/moead.py
index 52f7cdd..34675a8 100644
--- a/hvd/moea/moead.py
+++ b/hvd/moea/moead.py
@@ -52,6 +52,8 @@ class ConstraintAwareMOEAD(MOEAD):
         N = self.neighbors[k]
         FV = self.decomposition.do(pop[N].get("F"), weights=self.ref_dirs[N, :], ideal_point=self.ideal)
         off_FV = self.decomposition.do(off.F[None, :], weights=self.ref_dirs[N, :], ideal_point=self.ideal)
+        # a single neighbour gives a one-by-one matrix
+        FV, off_FV = np.ravel(FV), np.ravel(off_FV)
 
         if self.problem.has_constraints():
             eps = self._cv_eps()
-- 
2.43.0


From 9ed5d7ff2b45c3d72c11cf9925c313b72fa4314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 28/28] fix: use the current weight of the spread term in the
 derivatives of the matched MMD

---
 hvd/mmd.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..f495900 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,12 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        # NOTE: `beta` is an argument since `jit` would keep its value at the first call
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +317,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +393,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +414,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0

