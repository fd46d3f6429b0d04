From 5f5dd41f3cb7f564693b740fbad50dcf96baabe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:44 +0000
Subject: [PATCH 1/7] fix: sum repeated coordinates when densifying a sparse
 matrix

---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From 6441fe38a0e563853178a9244b4b7c959a764c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:44 +0000
Subject: [PATCH 2/7] fix: do not truncate sparse matrix products with integer
 vectors

---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index cbfd6a2..21fb316 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -42,7 +42,7 @@ class SparseCooMatrix:
             self.shape[1],
         ), "Inner product only supported for 1D vectors!"
         return (
-            jnp.zeros(self.shape[0], dtype=other.dtype)
+            jnp.zeros(self.shape[0], dtype=jnp.result_type(self.values, other))
             .at[self.coords.rows]
             .add(self.values * other[self.coords.cols])
         )
-- 
2.43.0


From 37c12bab8964439bc7944868672141417bd063c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:52 +0000
Subject: [PATCH 3/7] fix: match deltas to variables when retracting
 assignments

Deltas stored in a different variable order than the assignments were
applied to the wrong variables of the same type.
---
 jaxfg/core/_variable_assignments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 892c7ef..a4c1b59 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -186,6 +186,11 @@ class VariableAssignments:
         assert not self.storage_layout.local_flag
         assert local_delta_assignments.storage_layout.local_flag
 
+        # Deltas may be stored in a different order than the variables they update
+        local_delta_assignments = local_delta_assignments.update_storage_layout(
+            StorageLayout.make(self.get_variables(), local=True)
+        )
+
         # On-manifold retractions, one variable type at a time!
         new_storage = jnp.zeros_like(self.storage)
         variable_type: Type[VariableBase]
-- 
2.43.0


From 1fafb5ab7ae5bd9be523cb6cb1eaa6ce1e73acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:17 +0000
Subject: [PATCH 4/7] fix: scale Huber Jacobians by the same weight as the
 residual

Graphs pass the already whitened residual when whitening Jacobians, so
the weight was computed from the attenuated norm and rows of outliers
were scaled too little.
---
 jaxfg/noises/_huber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..ed44ee2 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -43,9 +43,11 @@ class HuberWrapper(NoiseModelBase):
     ) -> hints.Array:
         jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)
 
+        # The residual we get here is already whitened by this model, so its norm is
+        # `sqrt(delta * norm)` past the threshold.
         residual_norm = jnp.linalg.norm(residual_vector)
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            jacobian * (self.delta / residual_norm),
         )
-- 
2.43.0


From decc7076586e5032abca941d5c4a775cdaae7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:14 +0000
Subject: [PATCH 5/7] fix: take absolute values in the gradient tolerance check

The criterion is documented as an infinity norm, but the signed maximum was
used, so a gradient whose entries all point the same way ended the solve.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From 8226778aadb085e032faa62ce764284b49e61da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:39 +0000
Subject: [PATCH 6/7] fix: keep the old residual vector when a trust region
 step is rejected

Rejected steps kept the old estimate and cost but stored the residuals of the
proposal, so the next linearization mixed two different estimates.
---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..9b4b468 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -183,6 +183,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..393b58e 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -147,6 +147,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
-- 
2.43.0


From a0212f7134ecf07acb7e77c1a7e5bd49acb7c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:42 +0000
Subject: [PATCH 7/7] fix: recover covariances from a factor in storage order

CHOLMOD may permute the unknowns before factorizing. The recovered entries were then indexed in the wrong order, so marginals belonged to other variables.
---
 jaxfg/experimental/_sparse_covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..89cf4b9 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -38,8 +38,10 @@ class SparseCovariance:
             .T.as_scipy_coo_matrix()
             .tocsc(copy=False)
         )
+        # Covariance recovery indexes `L` by storage order, so we can't use a
+        # fill-reducing permutation here.
         sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
+            sksparse.cholmod.cholesky_AAt(A=A, ordering_method="natural").L()
         )
         return SparseCovariance(
             L=sqrt_information_matrix,
-- 
2.43.0

