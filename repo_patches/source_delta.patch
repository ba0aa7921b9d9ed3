From 46f3dfe88b8b809c143ab04bffdd68979d79c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 001/147] fix: mixed lasso prox returned NaN for a zero l1
 coordinate when the multiplier is 0

---
 regreg/atoms/mixed_lasso_cython.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index d96d53f..3bfd115 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -47,9 +47,8 @@ def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = (prox_center[l1_penalty] * 
-                              np.minimum(1, implied_bound / 
-                                         np.fabs(prox_center[l1_penalty])))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], 
+                                     -implied_bound, implied_bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(implied_bound, 
                                            prox_center[positive_part])
@@ -87,7 +86,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1, bound / np.fabs(prox_center[l1_penalty]))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -bound, bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
-- 
2.43.0


From fff2ba89cb092401f1d6404de4a440aac5f83969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 002/147] fix: mixed lasso feasibility test flagged points of
 the nonnegative orthant with a zero coordinate as infeasible

---
 regreg/atoms/mixed_lasso_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 3bfd115..fa69dd6 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -125,10 +125,10 @@ def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     tol = 1.e-5
     if check_feasibility:
         xpos = x[positive_part]
-        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < tol:
+        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < -tol:
             value = np.inf
         xnn = x[nonnegative]
-        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < nntol:
+        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < -nntol:
             value = np.inf
 
     return value
-- 
2.43.0


From 415d7984af195d7b9369c4fb6884cc515bc3cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 003/147] fix: constrained_max and positive part atoms rejected
 feasible points with zero coordinates or zero bound

---
 regreg/atoms/seminorms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index df6af7e..50f637f 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -947,7 +947,7 @@ class constrained_max(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = lagrange * np.max(arg)
         if not anyneg or not check_feasibility:
             return v
@@ -956,7 +956,7 @@ class constrained_max(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         inside = np.max(arg) <= bound * (1 + self.tol)
         if inside and not anyneg:
             return 0
@@ -1025,7 +1025,7 @@ class constrained_positive_part(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = np.maximum(arg, 0).sum()
         if not anyneg or not check_feasibility:
             return v * lagrange
@@ -1035,7 +1035,7 @@ class constrained_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         value = self.seminorm(arg, lagrange=1, check_feasibility=True)
-        if value >= bound * (1 + self.tol):
+        if value > bound * (1 + self.tol):
             return np.inf
         return 0
 
@@ -1112,7 +1112,7 @@ class max_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         v = np.max(np.maximum(arg,0))
-        if v >= bound * (1 + self.tol):
+        if v > bound * (1 + self.tol):
             return np.inf
         return 0
 
-- 
2.43.0


From f4cce1a641d8a34888bdba201b5c29a91390b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 004/147] fix: proximal maps of the positive part atoms
 truncated or rejected integer input

---
 regreg/atoms/seminorms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 50f637f..3882baa 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -884,7 +884,7 @@ class positive_part(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = arg.copy()
         pos = v > 0
         v = np.atleast_1d(v)
@@ -894,7 +894,7 @@ class positive_part(seminorm):
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = arg.copy().astype(float)
         v = np.atleast_1d(v)
         pos = v > 0
@@ -966,7 +966,7 @@ class constrained_max(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = arg.copy().astype(float)
         v = np.atleast_1d(v)
         pos = v > 0
@@ -1042,7 +1042,7 @@ class constrained_positive_part(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = np.zeros(arg.shape)
         v = np.atleast_1d(v)
         pos = arg > 0
@@ -1053,7 +1053,7 @@ class constrained_positive_part(seminorm):
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = np.zeros(arg.shape, float)
         v = np.atleast_1d(v)
         pos = arg > 0
@@ -1124,7 +1124,7 @@ class max_positive_part(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = np.zeros(arg.shape, float)
         v = np.atleast_1d(v)
         pos = arg > 0
-- 
2.43.0


From a80ed2865549904894a13a2ccdf6d9e43fcbaab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 005/147] fix: projection onto the l2 epigraph and its polar
 moved points of the cone and returned NaN at the axis

---
 regreg/atoms/cones.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 1beb2f9..36b9cb4 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -469,8 +469,13 @@ class l2_epigraph(cone):
         norm = x[-1]
         coef = x[:-1]
         norm_coef = np.linalg.norm(coef)
-        thold = (norm_coef - norm) / 2.
         result = np.zeros_like(x)
+        if norm_coef <= norm: # already in the cone
+            result[:] = x
+            return result
+        if norm_coef <= -norm: # in the polar cone
+            return result
+        thold = (norm_coef - norm) / 2.
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return result
@@ -513,8 +518,13 @@ class l2_epigraph_polar(cone):
         norm = arg[-1]
         coef = arg[:-1]
         norm_coef = np.linalg.norm(coef)
-        thold = (norm_coef - norm) / 2.
         result = np.zeros_like(arg)
+        if norm_coef <= norm: # already in the cone
+            result[:] = arg
+            return -result
+        if norm_coef <= -norm: # in the polar cone
+            return result
+        thold = (norm_coef - norm) / 2.
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return -result
-- 
2.43.0


From 8c7d9f9bfa9b3a8e8facf9778fea0900610475cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 006/147] fix: weighted l1/sup norms returned NaN when an
 infinite weight met a zero multiplier or bound

---
 regreg/atoms/weighted_atoms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 18b7c63..bd409e7 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -174,7 +174,9 @@ class l1norm(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        return np.sign(arg) * np.maximum(np.fabs(arg)-lagrange * self.weights
+        weights = np.where(np.isinf(self.weights), np.inf, 
+                           lagrange * self.weights)
+        return np.sign(arg) * np.maximum(np.fabs(arg)-weights
                                        / lipschitz, 0)
 
     @doc_template_user
@@ -246,14 +248,17 @@ class supnorm(seminorm):
                                                    0,
                                                    np.fabs(arg[_keep]),
                                                    weights[_keep])
-        resid = np.sign(arg) * np.maximum(np.fabs(arg)-_lagrange * weights, 0)
+        cut = np.where(_isinf, np.inf, _lagrange * weights)
+        resid = np.sign(arg) * np.maximum(np.fabs(arg)-cut, 0)
 
         return arg - resid
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        return np.clip(arg, -bound * self.invweights, bound * self.invweights)
+        cut = np.where(np.isinf(self.invweights), np.inf, 
+                       bound * self.invweights)
+        return np.clip(arg, -cut, cut)
 
     def terms(self, arg, check_feasibility=True):
         """
-- 
2.43.0


From a6056c5aefe6561b358d1e6c3f5c3af48c9e3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 007/147] fix: generic block norms used xrange, which python 3
 does not have

---
 regreg/atoms/block_norms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7abb416..e69b0a4 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -87,7 +87,7 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, x, lipschitz, lagrange)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.lagrange_prox(x[i], lipschitz=lipschitz,
                                            lagrange=lagrange)
         return v
@@ -201,7 +201,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.bound_prox(self, x,
                                       bound=bound)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.bound_prox(x[i], 
                                         bound=bound)
         return v
-- 
2.43.0


From 55a3bb976d84f106c9bb6043a1710bd717e7e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 008/147] fix: l2 block norms returned NaN for zero rows and
 failed on integer or already feasible input

---
 regreg/atoms/block_norms.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index e69b0a4..2ee69c2 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -282,8 +282,8 @@ class linf_l2(block_max):
         norm = np.sqrt((arg**2).sum(1))
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
-        v = arg.copy()
-        v[norm >= bound] *= bound / norm[norm >= bound][:,np.newaxis]
+        v = arg.astype(float)
+        v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
     @doc_template_user
@@ -295,9 +295,9 @@ class linf_l2(block_max):
         if cut < np.inf:
             proj_factor = (norm - cut) * (norm > cut)
         else:
-            proj_factor = arg
-        factor = (norm - proj_factor) / norm
-        v = arg.copy()
+            proj_factor = norm
+        factor = (norm - proj_factor) / (norm + (norm == 0))
+        v = arg.astype(float)
         v *= factor[:,np.newaxis]
         return v
 
@@ -466,7 +466,7 @@ class l1_l2(block_sum):
         arg = arg.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         norm = np.sqrt((arg**2).sum(1))
-        mult = np.maximum(norm - lagrange / lipschitz, 0) / norm
+        mult = np.maximum(norm - lagrange / lipschitz, 0) / (norm + (norm == 0))
         return arg * mult[:, np.newaxis]
 
     @doc_template_user
@@ -479,9 +479,9 @@ class l1_l2(block_sum):
         if cut < np.inf:
             proj_factor = (norm - cut) * (norm > cut)
         else:
-            proj_factor = arg
-        factor = proj_factor / norm
-        v = arg.copy()
+            proj_factor = norm
+        factor = proj_factor / (norm + (norm == 0))
+        v = arg.astype(float)
         v *= factor[:,np.newaxis]
         return v
 
@@ -604,6 +604,8 @@ class l1_l1(l1_l2):
         cut = find_solution_piecewise_linear_c(bound, 0, absarg)
         if cut < np.inf:
             value = np.sign(arg) * (absarg - cut) * (absarg > cut)
+        else:
+            value = arg
         return value.reshape(self.shape)
 
     @doc_template_user
-- 
2.43.0


From 9f23f31df052a941fd27d4c4b3419aabd8ef1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 009/147] fix: projection_complement accepted infeasible points
 and rejected feasible ones

---
 regreg/atoms/linear_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 17920cd..1cdfcd6 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -159,7 +159,7 @@ class projection_complement(linear_constraint):
     @doc_template_user
     def constraint(self, x):
         projx = self.cone_prox(x)
-        incone = np.linalg.norm(projx) / max([np.linalg.norm(x),1]) < self.tol
+        incone = np.linalg.norm(x-projx) / max([np.linalg.norm(x),1]) < self.tol
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From d3fb6a389e68c5c37244fe555dead6d8f36a83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 010/147] fix: group lasso constraint had no tolerance and its
 dual ignored groups of zero weight

---
 regreg/atoms/group_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 77ff69b..8bc1a38 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -257,7 +257,7 @@ class group_lasso(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        inball = self.seminorm(arg, lagrange=1) <= bound
+        inball = self.seminorm(arg, lagrange=1, check_feasibility=True) <= bound * (1 + self.tol)
         if inball:
             return 0
         else:
@@ -354,7 +354,7 @@ class group_lasso_dual(group_lasso):
                                                     self._group_array,
                                                     self._weight_array,
                                                     self._norms_cython,
-                                                    False)
+                                                    check_feasibility=int(check_feasibility))
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
-- 
2.43.0


From 282c293711cfefd3000884a856505c8890e9c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 011/147] fix: nuclear_norm_epigraph feasibility ignored the
 largest singular value

---
 regreg/atoms/svd_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 4745552..c1f0437 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -259,7 +259,7 @@ class nuclear_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = np.fabs(D[1:]).sum() <= (1 + self.tol) * norm
+        incone = np.fabs(D).sum() <= (1 + self.tol) * norm
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From 2e7babe08be371ef57ebbf0a71f5c5816864c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 012/147] fix: sparse_group_lasso_dual.constraint returned a
 bool and ignored the bound

---
 regreg/atoms/sparse_group_lasso.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index e11fb5b..3b57c3b 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -239,8 +239,8 @@ class sparse_group_lasso_dual(sparse_group_lasso):
      @property
      def base_conjugate(self):
          """
-         For a sparse group LASSO dual in bound form,
-         an atom that agrees with its primal Lagrange form.
+         The sparse group LASSO seminorm (with lagrange=1)
+         whose dual norm is self.
          
          Note: this conjugate does not take into account the atom's quadratic
          and offset terms. 
@@ -250,7 +250,7 @@ class sparse_group_lasso_dual(sparse_group_lasso):
                                              self.groups,
                                              self.lasso_weights,
                                              weights=self.weights,
-                                             lagrange=self.bound)
+                                             lagrange=1.)
          return self._base_conjugate_atom
 
      @doc_template_user
@@ -263,7 +263,11 @@ class sparse_group_lasso_dual(sparse_group_lasso):
      @doc_template_user
      def constraint(self, x, bound=None):
          bound = seminorm.constraint(self, x, bound=bound)
-         return inside_set(self.base_conjugate, x)
+         inball = self.seminorm(x, lagrange=1, check_feasibility=True) <= bound * (1 + self.tol)
+         if inball:
+             return 0
+         else:
+             return np.inf
 
      @doc_template_user
      def lagrange_prox(self, x,  lipschitz=1, lagrange=None):
-- 
2.43.0


From 5e524417825d079bb4ae7e5e1f2e95601790f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 013/147] fix: mixed lasso atoms applied offsets twice and
 mixed_lasso_dual feasibility returned bools and ignored unpenalized and
 nonnegative coordinates

---
 regreg/atoms/mixed_lasso.py         | 30 +++++++++++++++++------------
 regreg/atoms/mixed_lasso_cython.pyx |  8 ++++++--
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 0f9b969..d6a10f5 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -152,8 +152,11 @@ class mixed_lasso(atom):
         """
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        inball = self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol)
+        if inball:
+            return 0
+        else:
+            return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -162,12 +165,11 @@ class mixed_lasso(atom):
         return v
 
     def seminorm(self, x, check_feasibility=False):
-        x_offset = self.apply_offset(x)
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso(x_offset,
+        v = seminorm_mixed_lasso(x,
                                  self._l1_penalty,
                                  self._unpenalized,
                                  self._positive_part,
@@ -175,8 +177,10 @@ class mixed_lasso(atom):
                                  self._groups,
                                  self._weight_array,
                                  self._norms_cython,
-                                 np.int(check_feasibility))
+                                 int(check_feasibility))
 
+        if not np.isfinite(v):
+            return v
         return v * self.lagrange
 
     def proximal(self, proxq, prox_control=None):
@@ -326,8 +330,11 @@ class mixed_lasso_dual(mixed_lasso):
     def constraint(self, x, bound=None):
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        inball = self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol)
+        if inball:
+            return 0
+        else:
+            return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -339,21 +346,20 @@ class mixed_lasso_dual(mixed_lasso):
         return v
 
     def seminorm(self, x, lagrange=1, check_feasibility=False):
-        x_offset = self.apply_offset(x)
-
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso_dual(x_offset, 
+        v = seminorm_mixed_lasso_dual(x, 
                                       self._l1_penalty,
                                       self._unpenalized,
                                       self._positive_part,
                                       self._nonnegative,
                                       self._groups,
                                       self._weight_array,
-                                      self._norms_cython)
-        return v 
+                                      self._norms_cython,
+                                      check_feasibility=int(check_feasibility))
+        return lagrange * v 
 
     def proximal(self, proxq, prox_control=None):
         r"""
diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index fa69dd6..ff5f591 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -294,7 +294,7 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if xl1.shape not in [(), (0,)]:
         value = np.fabs(xl1).max()
     else:
-        value = -np.inf
+        value = 0
 
     xpos = x[positive_part]
     if xpos.shape not in [(), (0,)]:
@@ -311,7 +311,11 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if check_feasibility:
         xnn = x[nonnegative]
         if xnn.shape not in [(), (0,)]:
-            if xnn.min() < -nntol:
+            if xnn.max() > nntol:
+                value = np.inf
+        xun = x[unpenalized]
+        if xun.shape not in [(), (0,)]:
+            if np.fabs(xun).max() > nntol:
                 value = np.inf
 
     return value
-- 
2.43.0


From 70b2b8efbdcffb081b0b7aea488a0cfbe0b44654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 014/147] fix: block norm constraint methods ignored the bound
 argument or failed

---
 regreg/atoms/block_norms.py        | 29 +++++++++++++++++------------
 regreg/atoms/sparse_group_block.py | 12 +++++++-----
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 2ee69c2..3608f48 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -74,11 +74,12 @@ class block_sum(seminorms.seminorm):
                            lagrange=1.))
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         # XXX should we check feasibility here?
         x = x.reshape(self.shape)
-        v = np.sum(self.seminorms(x, check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
+        v = np.sum(self.seminorms(x, lagrange=1., check_feasibility=False))
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -187,7 +188,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.constraint(self, x, bound=bound)
         # XXX should we check feasibility here?
         v = np.max(self.seminorms(x, lagrange=1., check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -261,10 +262,11 @@ class linf_l2(block_max):
                            initial=initial)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_max = np.sqrt((arg**2).sum(1)).max()
-        if norm_max <= self.bound * (1 + self.tol):
+        if norm_max <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -372,10 +374,11 @@ class linf_linf(linf_l2):
                            initial=initial)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_max = np.fabs(arg).max()
-        if norm_max <= self.bound * (1 + self.tol):
+        if norm_max <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -486,10 +489,11 @@ class l1_l2(block_sum):
         return v
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
         norm_sum = np.sqrt((x**2).sum(1)).sum()
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -581,10 +585,11 @@ class l1_l1(l1_l2):
         return (np.maximum(norm - lagrange / lipschitz, 0) * np.sign(arg)).reshape(self.shape)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_sum = np.fabs(arg).sum()
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 14bdeae..cf37891 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -67,12 +67,13 @@ class sparse_group_block(l1_l2):
         raise NotImplementedError('sparse_group_block bound form not implemented')
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
         l1_norms = np.fabs(x).sum()
-        l2_norms = np.sqrt(np.sum(x**2), 1).sum()
+        l2_norms = np.sqrt(np.sum(x**2, 1)).sum()
         norm_sum = self.l1_weight * l1_norms + self.l2_weight * l2_norms
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -188,12 +189,13 @@ class sparse_group_block_dual(sparse_group_block):
         return arg - _prox
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
         dual_norm = _gauge_function_dual(x,
                                          self.l1_weight,
                                          self.l2_weight)
-        if dual_norm <= self.bound * (1 + self.tol):
+        if dual_norm <= bound * (1 + self.tol):
             return 0
         return np.inf
 
-- 
2.43.0


From 0fc800ffed6b9fed8bf02a077f6827e3688a3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 015/147] fix: group_lasso_dual value was NaN at infeasible
 points when the multiplier is 0

---
 regreg/atoms/group_lasso.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 8bc1a38..0710a19 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -346,15 +346,18 @@ class group_lasso_dual(group_lasso):
 
         self._norms_cython[:] = 0
 
-        return lagrange * seminorm_mixed_lasso_dual(arg, 
-                                                    self._l1_cython,
-                                                    self._unpenalized_cython,
-                                                    self._positive_part_cython,
-                                                    self._nonnegative_cython,
-                                                    self._group_array,
-                                                    self._weight_array,
-                                                    self._norms_cython,
-                                                    check_feasibility=int(check_feasibility))
+        value = seminorm_mixed_lasso_dual(arg, 
+                                          self._l1_cython,
+                                          self._unpenalized_cython,
+                                          self._positive_part_cython,
+                                          self._nonnegative_cython,
+                                          self._group_array,
+                                          self._weight_array,
+                                          self._norms_cython,
+                                          check_feasibility=int(check_feasibility))
+        if not np.isfinite(value):
+            return value
+        return lagrange * value
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
-- 
2.43.0


From 8cca4407c0835a4c06b47c17cc22b323b6f843c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 016/147] fix: conjugates of strongly convex slope, simplex,
 maximum, linear constraint and spectral cone atoms raised NameError

---
 regreg/atoms/linear_constraints.py | 2 +-
 regreg/atoms/simplex.py            | 1 +
 regreg/atoms/slope.py              | 1 +
 regreg/atoms/svd_norms.py          | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 1cdfcd6..b081e10 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -3,7 +3,7 @@ from scipy import sparse
 from copy import copy
 import warnings
 
-from ..problems.composite import composite, nonsmooth
+from ..problems.composite import composite, nonsmooth, smooth_conjugate
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 42468d6..0927bc4 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -4,6 +4,7 @@ Projection onto simplex (and its conjugate)
 import numpy as np
 from copy import copy
 
+from ..problems.composite import smooth_conjugate
 from ..atoms import atom, _work_out_conjugate, affine_atom
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 000f03b..7b0a7a4 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -19,6 +19,7 @@ from ._isotonic_py import pav as isotonic_regression_py
 
 from .seminorms import seminorm
 
+from ..problems.composite import smooth_conjugate
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index c1f0437..b9b0c69 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -8,6 +8,7 @@ from copy import copy
 
 import numpy as np
 
+from ..problems.composite import smooth_conjugate
 from ..atoms import atom, _work_out_conjugate
 from .seminorms import conjugate_seminorm_pairs, seminorm, l1norm, supnorm
 from .cones import cone, conjugate_cone_pairs
-- 
2.43.0


From fd5c40adda04646506c5255f792ca64663dc5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 017/147] fix: linear compositions of simplex, maximum and
 linear constraint atoms raised NameError

---
 regreg/atoms/linear_constraints.py | 14 ++++++++++----
 regreg/atoms/simplex.py            | 27 +++++++++++++++++++--------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index b081e10..06eb94e 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -5,6 +5,7 @@ import warnings
 
 from ..problems.composite import composite, nonsmooth, smooth_conjugate
 from .cones import cone, affine_cone
+from ..affine import linear_transform
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
@@ -92,10 +93,15 @@ class linear_constraint(cone):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, basis, diag=False,
-               linear_term=None, offset=None):
-        l = linear_transform(linear_operator, diag=diag)
-        cone = cls(l.input_shape, basis,
-                   linear_term=linear_term, offset=offset)
+               offset=None, quadratic=None):
+        if not isinstance(linear_operator, linear_transform):
+            l = linear_transform(linear_operator, diag=diag)
+        else:
+            l = linear_operator
+        if offset is None:
+            offset = 0
+        cone = cls(l.output_shape, basis,
+                   offset=-offset, quadratic=quadratic)
         return affine_cone(cone, l)
 
 @objective_doc_templater()
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 0927bc4..c78064c 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -5,6 +5,7 @@ import numpy as np
 from copy import copy
 
 from ..problems.composite import smooth_conjugate
+from ..affine import linear_transform
 from ..atoms import atom, _work_out_conjugate, affine_atom
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
@@ -63,10 +64,15 @@ class simplex_constraint(atom):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
-               linear_term=None, offset=None):
-        l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+               offset=None, quadratic=None):
+        if not isinstance(linear_operator, linear_transform):
+            l = linear_transform(linear_operator, diag=diag)
+        else:
+            l = linear_operator
+        if offset is None:
+            offset = 0
+        atom = cls(l.output_shape, 
+                   offset=-offset, quadratic=quadratic)
         return affine_atom(atom, l)
 
     @doc_template_user
@@ -195,10 +201,15 @@ class maximum(atom):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
-               linear_term=None, offset=None):
-        l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+               offset=None, quadratic=None):
+        if not isinstance(linear_operator, linear_transform):
+            l = linear_transform(linear_operator, diag=diag)
+        else:
+            l = linear_operator
+        if offset is None:
+            offset = 0
+        atom = cls(l.output_shape, 
+                   offset=-offset, quadratic=quadratic)
         return affine_atom(atom, l)
 
     @doc_template_user
-- 
2.43.0


From 0d09c29a68ae696e38cbc422f0dee7e69f1dae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 018/147] fix: the projection onto a (group/mixed) lasso dual
 ball returned a shared buffer that later calls overwrite

---
 regreg/atoms/mixed_lasso_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index ff5f591..798228f 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -91,7 +91,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
 
-    return projection
+    return projection.copy()
 
 def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x, 
                          cnp.ndarray[DTYPE_intp_t, ndim=1] l1_penalty, 
-- 
2.43.0


From 635e2e387bcb28d45d63ad0280f809a8bc6c4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 019/147] fix: setting an offset to zero left an earlier
 nonzero offset in place

---
 regreg/problems/composite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 13a4b6f..9a36685 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -43,6 +43,8 @@ class composite(object):
             value = asarray(value)
             if npany(value != 0):
                 self._offset = value
+            else:
+                self._offset = None
         else:
             self._offset = None
 
-- 
2.43.0


From aac2ea26399742022fe84e5ec94cb73b8299e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 020/147] fix: the conjugate of a smooth conjugate that carries
 its own quadratic raised an error or ignored the linear term

---
 regreg/problems/composite.py | 100 +++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 46 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 9a36685..2ae59f8 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -302,54 +302,28 @@ class smooth_conjugate(smooth):
                 atom.quadratic = atom.quadratic + self.smoothing_quadratic
                 return atom
         else:
+            # with h the conjugate of F = f + smoothing_quadratic, the conjugate of 
+            # h + r/2 |u|^2_2 + u^T gamma + a (see above)
             q = self.quadratic.collapsed()
-            if q.coef == 0:
-                newq = copy(atom.quadratic)
-                newq.constant_term -= q.constant_term
-                offset = -q.linear_term
-                if atom.offset is not None:
-                    offset -= atom.offset
-                atom = copy(atom)
-                atom.offset = offset
-                atom.quadratic = newq
+            r, gamma, a = q.coef, q.linear_term, q.constant_term
+            if r == 0:
+                # F(v - gamma) - a
+                F = (self.atom.quadratic + self.smoothing_quadratic).collapsed()
+                atom = copy(self.atom)
+                gamma = zeros(self.shape) + gamma
+                if self.atom.offset is not None:
+                    atom.offset = self.atom.offset + gamma
+                else:
+                    atom.offset = gamma
+                atom.quadratic = sq(F.coef, gamma, F.linear_term, 
+                                    F.constant_term - (F.linear_term * gamma).sum() - a)
                 return atom
-            if q.coef != 0:
-                r = q.coef
-                sq_ = self.smoothing_quadratic
-                newq = sq_ + q.conjugate
-                new_smooth = smooth_conjugate(self.atom, quadratic=newq)
-                output = smooth(self.atom.shape,
-                                offset=None,
-                                quadratic=sq(1./r, q.linear_term, 0, 0),
-                                initial=None)
-                output.smoothed_atom = new_smooth
-
-                def smooth_objective(self, x, mode='func', check_feasibility=False):
-                    # what if self.quadratic is later changed? hmm..
-                    r = 1. / self.quadratic.coef
-                    if mode == 'func':
-                        v = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                check_feasibility=check_feasibility)
-                        return self.smoothing_quadratic.objective(x, 'func') - v
-                    elif mode == 'both':
-                        v1, g1 = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                     check_feasibility=check_feasibility)
-                        v2, g2 = self.smoothing_quadratic.objective(x, mode=mode, 
-                                                                    check_feasibility=check_feasibility)
-                        return v2-v1, g2-g1/r
-                    elif mode == 'grad':
-                        g1 = self.smoothed_atom.smooth_objective(x/r, mode='grad', 
-                                                                     check_feasibility=check_feasibility)
-                        g2 = self.smoothing_quadratic.objective(x, mode='grad', 
-                                                                    check_feasibility=check_feasibility)
-                        return g2-g1/r
-                    else:
-                        raise ValueError("mode incorrectly specified")
-                        
-                output.smooth_objective = type(output.smooth_objective)(smooth_objective,
-                                                                        output, 
-                                                                        smooth)
-                return output
+            else:
+                # |v - gamma|^2_2 / (2r) - a - H((v - gamma) / r), with 
+                # H the conjugate of F + |.|^2_2 / (2r)
+                H = smooth_conjugate(self.atom, 
+                                     self.smoothing_quadratic + sq(1. / r, 0, 0, 0))
+                return _conjugate_smooth_quadratic(H, sq(1. / r, gamma, 0, -a))
     conjugate = property(get_conjugate)
 
     def latexify(self, var=None, idx=''):
@@ -403,3 +377,37 @@ class smooth_conjugate(smooth):
 
     def proximal(self, proxq, prox_control=None):
         raise ValueError('no proximal defined')
+
+class _conjugate_smooth_quadratic(smooth):
+
+    """
+    The function `Q(v) - H(grad Q(v))` for a smooth conjugate `H` and 
+    an `identity_quadratic` `Q`: this is the conjugate of a smooth conjugate 
+    to which a quadratic with non-zero coefficient was added.
+    """
+
+    def __init__(self, smooth_atom, conjugate_quadratic):
+        smooth.__init__(self, smooth_atom.shape)
+        self.smoothed_atom = smooth_atom
+        self.conjugate_quadratic = conjugate_quadratic
+        self.lipschitz = conjugate_quadratic.coef
+
+    def smooth_objective(self, x, mode='both', check_feasibility=False):
+        """
+        Evaluate a smooth function and/or its gradient
+
+        if mode == 'both', return both function value and gradient
+        if mode == 'grad', return only the gradient
+        if mode == 'func', return only the function value
+        """
+        Qval, Qgrad = self.conjugate_quadratic.objective(x, 'both')
+        if mode == 'func':
+            return Qval - self.smoothed_atom.smooth_objective(Qgrad, 'func')
+        Hval, Hgrad = self.smoothed_atom.smooth_objective(Qgrad, 'both')
+        grad = Qgrad - self.conjugate_quadratic.coef * Hgrad
+        if mode == 'both':
+            return Qval - Hval, grad
+        elif mode == 'grad':
+            return grad
+        else:
+            raise ValueError("mode incorrectly specified")
-- 
2.43.0


From 5326dabb49f7fba4b1571823e427066a1045d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 021/147] fix: the conjugate of a block norm ignored a
 multiplier or bound set after construction

---
 regreg/atoms/block_norms.py        | 17 +++++++----------
 regreg/atoms/sparse_group_block.py | 10 ++++------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 3608f48..d4ecd5d 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -123,14 +123,13 @@ class block_sum(seminorms.seminorm):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-            atom_cls = conj_atom.__class__
+            atom_cls = self.atom.conjugate.__class__
 
             atom = cls(atom_cls, 
                        self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -311,12 +310,11 @@ class linf_l2(block_max):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -540,12 +538,11 @@ class l1_l2(block_sum):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index cf37891..a1d8e0c 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -94,14 +94,13 @@ class sparse_group_block(l1_l2):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -215,14 +214,13 @@ class sparse_group_block_dual(sparse_group_block):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
-- 
2.43.0


From 9961e5581127591b9029ab4fa87f43482ebdfd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 022/147] fix: block_sum and block_max could not be copied

---
 regreg/atoms/block_norms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index d4ecd5d..cb461a6 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -6,6 +6,7 @@ l1/l*, linf/l* norms. These are used in multiresponse LASSOs.
 from __future__ import print_function, division, absolute_import
 
 import warnings
+from copy import copy
 
 import numpy as np
 
@@ -51,6 +52,16 @@ class block_sum(seminorms.seminorm):
                              offset=None,
                              quadratic=quadratic)
 
+    def __copy__(self):
+        args = (copy(self.shape),)
+        if self.__class__ in [block_sum, block_max]:
+            args = (self.atom.__class__,) + args
+        return self.__class__(*args,
+                              bound=copy(self.bound),
+                              lagrange=copy(self.lagrange),
+                              offset=copy(self.offset),
+                              quadratic=copy(self.quadratic))
+
     @doc_template_user
     @doc_template_provider
     def seminorms(self, x, lagrange=None, check_feasibility=False):
-- 
2.43.0


From 14303a14a1a0debf922967d4e46ecff829220ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 023/147] fix: block_sum and block_max handed their own
 quadratic term to the norm of a block

---
 regreg/atoms/block_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index cb461a6..c9e4b01 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -50,7 +50,7 @@ class block_sum(seminorms.seminorm):
         self.atom = atom_cls(shape[1:], lagrange=lagrange,
                              bound=bound,
                              offset=None,
-                             quadratic=quadratic)
+                             quadratic=None)
 
     def __copy__(self):
         args = (copy(self.shape),)
-- 
2.43.0


From 8dc3604041dba18fae1f8116159002a888cba75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 024/147] fix: composition dropped a nonzero affine_offset and
 reported a zero one

---
 regreg/affine/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4289826..39ee103 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -850,7 +850,7 @@ class composition(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if not np.allclose(affine_offset, 0): 
+        if np.allclose(affine_offset, 0): 
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
-- 
2.43.0


From dbcdddc218b138f0e8470e16fb95bf470f218851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 025/147] fix: scalar_multiply and residual reported no
 affine_offset although they have one

---
 regreg/affine/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 39ee103..bf2cb99 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -824,7 +824,9 @@ class residual(affine_transform):
         self.transform = astransform(transform)
         self.input_shape = self.transform.input_shape
         self.output_shape = self.transform.output_shape
-        self.affine_offset = None
+        self.affine_offset = self.transform.affine_offset
+        if self.affine_offset is not None:
+            self.affine_offset = -self.affine_offset
         if not self.input_shape == self.output_shape:
             raise ValueError('output and input shapes should be the same to compute residual')
 
@@ -921,7 +923,9 @@ class scalar_multiply(affine_transform):
     def __init__(self, atransform, scalar):
         self.input_shape, self.output_shape = (atransform.input_shape, atransform.output_shape)
         self.scalar = scalar
-        self.affine_offset = None
+        self.affine_offset = atransform.affine_offset
+        if self.affine_offset is not None:
+            self.affine_offset = self.affine_offset * scalar
         self._atransform = atransform
 
     def affine_map(self, x):
-- 
2.43.0


From eceddb57035c990edbe8d581e676a59e46ff46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 026/147] fix: an affine transform of an affine transform
 reported only the outer affine_offset

---
 regreg/affine/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index bf2cb99..10ece0a 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -98,6 +98,13 @@ class affine_transform(object):
                                  'output_shape']]):
                 self.input_shape = self.linear_operator.input_shape
                 self.output_shape = self.linear_operator.output_shape
+                inner_offset = self.linear_operator.affine_offset
+                if self.affine_offset is None:
+                    self.affine_offset = inner_offset
+                elif inner_offset is not None:
+                    self.affine_offset = broadcast_first(self.affine_offset,
+                                                         inner_offset,
+                                                         add)
                 self.affineD = True
                 self.diagD = False
             elif linear_operator.ndim == 1 and not diag:
@@ -214,10 +221,7 @@ class affine_transform(object):
         This routine is subclassed in affine_atom as a matrix multiplications,
         but could also call FFTs if D is a DFT matrix, in a subclass.
         """
-        if self.affineD:
-            v = self.linear_operator.affine_map(x)
-        else:
-            v = self.linear_map(x)
+        v = self.linear_map(x)
         if self.affine_offset is not None:
             # Deal with 1D and 2D input, affine_offset cases
             return broadcast_first(self.affine_offset, v, add)
-- 
2.43.0


From f123b3edbfd5126f5d7bb86af069c23f6c962731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 027/147] fix: add_intercept, scaler and reshape had no
 affine_offset attribute

---
 regreg/affine/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 10ece0a..162c8d3 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -345,6 +345,7 @@ class scaler(linear_transform):
     def __init__(self, scalings):
         self.scalings = np.asarray(scalings)
         self.input_shape = self.output_shape = self.scalings.shape
+        self.affine_offset = None
 
     def linear_map(self, x):
         return self.scalings * x
@@ -365,6 +366,7 @@ class reshape(linear_transform):
     def __init__(self, input_shape, output_shape):
         self.input_shape = input_shape
         self.output_shape = output_shape
+        self.affine_offset = None
 
     def linear_map(self, x):
         return x.reshape(self.output_shape)
@@ -469,6 +471,7 @@ class add_intercept(affine_transform):
         self.input_shape = (self._transform.input_shape[0] + 1,) # assumes a vector input, 
         self.output_shape = self._transform.output_shape
         self.linear_operator = None
+        self.affine_offset = self._transform.affine_offset
         
     def affine_map(self, x): # first coordinate is intercept
         return self._transform.affine_map(x[1:]) + x[0]
-- 
2.43.0


From 29050a5ded215e4aa64239abe610771dcb26b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 028/147] fix: aslinear swapped its input and output shapes

---
 regreg/affine/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 162c8d3..9ceab36 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -760,8 +760,8 @@ class aslinear(linear_transform):
     def __init__(self, transform):
         self._transform = astransform(transform)
         self.affine_offset = None
-        self.input_shape = self._transform.output_shape
-        self.output_shape = self._transform.input_shape
+        self.input_shape = self._transform.input_shape
+        self.output_shape = self._transform.output_shape
 
     def linear_map(self, x):
         return self._transform.linear_map(x)
-- 
2.43.0


From 2987e6aeb83ced7824b6a4ee0c52a6658622b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 029/147] fix: vstack and product failed for transforms with
 matrix output

---
 regreg/affine/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 9ceab36..24f3480 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -552,20 +552,20 @@ class vstack(affine_transform):
         self.affine_offset = np.empty(self.output_shape)
         x = np.zeros(self.input_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            self.affine_offset[g] = t.affine_map(x)
+            self.affine_offset[g] = t.affine_map(x).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
             
     def linear_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         return result
 
     def affine_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -685,7 +685,7 @@ class product(affine_transform):
         self.affine_offset = np.zeros(self.output_shape)
         for g, s, t in zip(self.output_slices, self.input_shapes,
                            self.transforms):
-            self.affine_offset[g] = t.affine_map(np.zeros(s))
+            self.affine_offset[g] = t.affine_map(np.zeros(s)).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
 
@@ -695,7 +695,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         return result
 
     def affine_map(self, x):
@@ -704,7 +704,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -715,8 +715,8 @@ class product(affine_transform):
         for og, ig, t, s in zip(self.output_slices,
                                 self.input_slices, 
                                 self.transforms,
-                                self.input_shapes):
-            result[ig] = t.adjoint_map(u[og]).reshape(-1)
+                                self.output_shapes):
+            result[ig] = t.adjoint_map(u[og].reshape(s)).reshape(-1)
         return result
 
 
-- 
2.43.0


From b8889310154e7cf5786e94381c7913686fb0ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 030/147] fix: selector and posneg adjoints returned a shared
 buffer that later calls overwrite

---
 regreg/affine/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 24f3480..d7d6139 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -333,12 +333,11 @@ class selector(linear_transform):
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
-        if not hasattr(self, "_output"):
-            self._output = np.zeros(self.initial_shape)
+        output = np.zeros(self.initial_shape)
         if self.reshape is not None:
             u.shape = self.affine_transform.output_shape
-        self._output[self.index_obj] = self.affine_transform.adjoint_map(u)
-        return self._output
+        output[self.index_obj] = self.affine_transform.adjoint_map(u)
+        return output
 
 class scaler(linear_transform):
 
@@ -958,10 +957,8 @@ class posneg(affine_transform):
 
     def __init__(self, linear_transform):
         self.linear_transform = astransform(linear_transform)
-        # where to store output so we don't recreate arrays 
         self.affine_offset = None
         self.input_shape = (2,) + self.linear_transform.input_shape
-        self._adjoint_output = np.zeros(self.input_shape)
         self.output_shape = self.linear_transform.output_shape
 
     def linear_map(self, x):
@@ -972,7 +969,7 @@ class posneg(affine_transform):
         return self.linear_map(x)
 
     def adjoint_map(self, x):
-        u = self._adjoint_output
+        u = np.zeros(self.input_shape)
         u[0] = self.linear_transform.adjoint_map(x)
         u[1] = -u[0]
         return u
-- 
2.43.0


From 193ed415117d02c6ef55137c8b390e182cc7ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 031/147] fix: selector with a reshape argument reported a
 wrong output shape, failed in its adjoint and changed its argument

---
 regreg/affine/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index d7d6139..f15c1dc 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -311,32 +311,31 @@ class selector(linear_transform):
         self.reshape = reshape
         if affine_transform == None:
             test = np.empty(initial_shape)
-            affine_transform = identity(test[index_obj].shape)
+            affine_transform = identity(test[index_obj].shape 
+                                        if reshape is None else reshape)
         self.affine_transform = affine_transform
         self.affine_offset = self.affine_transform.affine_offset
         self.input_shape = initial_shape
-        if self.reshape is None:
-            self.output_shape = self.affine_transform.output_shape
-        else:
-            self.output_shape = self.reshape
+        self.output_shape = self.affine_transform.output_shape
             
     def linear_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.linear_map(x_indexed)
 
     def affine_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
         output = np.zeros(self.initial_shape)
+        v = self.affine_transform.adjoint_map(u)
         if self.reshape is not None:
-            u.shape = self.affine_transform.output_shape
-        output[self.index_obj] = self.affine_transform.adjoint_map(u)
+            v = v.reshape(output[self.index_obj].shape)
+        output[self.index_obj] = v
         return output
 
 class scaler(linear_transform):
-- 
2.43.0


From b98d7c589db7789e06e8a2f89ced71a7cc95e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 032/147] fix: todense failed for stacked transforms

---
 regreg/affine/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index f15c1dc..b752652 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -980,7 +980,7 @@ def todense(transform):
     """
     if len(transform.input_shape) == 1:
         I = np.identity(np.product(transform.input_shape))
-        return transform.linear_map(I)
+        return np.array([np.asarray(transform.linear_map(e)).reshape(-1) for e in I]).T
     else:
         raise NotImplementedError('expecting a 1D shape as input')
 
-- 
2.43.0


From 08ccac16ce0dd5eeece7d9359db9e8cc23fb44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 033/147] fix: affine_sum failed for integer input or weights

---
 regreg/affine/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index b752652..74d7663 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -907,19 +907,19 @@ class affine_sum(affine_transform):
     def linear_map(self, x):
         output = 0
         for transform, weight in zip(self.transforms[::-1], self.weights[::-1]):
-            output += weight * transform.linear_map(x)
+            output = output + weight * transform.linear_map(x)
         return output
 
     def affine_map(self, x):
         output = 0
         for transform, weight in zip(self.transforms[::-1], self.weights[::-1]):
-            output += weight * transform.affine_map(x)
+            output = output + weight * transform.affine_map(x)
         return output
 
     def adjoint_map(self, x):
         output = 0
         for transform, weight in zip(self.transforms[::-1], self.weights[::-1]):
-            output += weight * transform.adjoint_map(x)
+            output = output + weight * transform.adjoint_map(x)
         return output
 
 
-- 
2.43.0


From cc610c96fbe722ceb99b7863738b93ec1c38ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 034/147] fix: penalties composed with an affine transform
 added its offset with the wrong sign and changed the penalty's own offset

---
 regreg/atoms/__init__.py | 16 +++++++++-------
 regreg/atoms/cones.py    |  4 +++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 8d02ba4..f3d5a36 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -6,7 +6,7 @@ import numpy as np
 from ..identity_quadratic import identity_quadratic
 from ..problems.composite import nonsmooth
 from ..affine import (linear_transform, identity as identity_transform, 
-                    affine_transform)
+                      affine_transform, aslinear)
 from ..smooth import affine_smooth
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
@@ -116,12 +116,12 @@ class affine_atom(object):
         # the atom. in this way, the affine_transform is actually
         # always linear
         if atransform.affine_offset is not None:
+            # atoms subtract their offset
+            offset = -atransform.affine_map(np.zeros(atransform.input_shape))
             if self.atom.offset is not None:
-                self.atom.offset += atransform.affine_offset
-            else:
-                self.atom.offset = atransform.affine_offset
-            ltransform = linear_transform(atransform.linear_operator,
-                                          diag=atransform.diagD)
+                offset = offset + self.atom.offset
+            self.atom.offset = offset
+            ltransform = aslinear(atransform)
         else:
             ltransform = atransform
         self.linear_transform = ltransform
@@ -165,7 +165,9 @@ class affine_atom(object):
 
     def __repr__(self):
         return "affine_atom(%s, %s)" % (repr(self.atom),
-                                        repr(self.linear_transform.linear_operator))
+                                        repr(getattr(self.linear_transform,
+                                                     'linear_operator',
+                                                     self.linear_transform)))
 
     @property
     def dual(self):
diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 36b9cb4..c643f42 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -305,7 +305,9 @@ class affine_cone(affine_atom):
 
     def __repr__(self):
         return "affine_cone(%s, %s)" % (repr(self.atom),
-                                        repr(self.linear_transform.linear_operator))
+                                        repr(getattr(self.linear_transform,
+                                                     'linear_operator',
+                                                     self.linear_transform)))
 
 @objective_doc_templater()
 class nonnegative(cone):
-- 
2.43.0


From f2f07d840776e5e183e41173a29830bc7ac1b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 035/147] fix: normalize failed for sparse matrices without
 centering and mis-scaled sparse matrices with repeated entries

---
 regreg/affine/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 74d7663..a1af93c 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -430,9 +430,7 @@ def normalize(transform,
         if not sparseM:
             col_means = M.mean(0)
         else:
-            tmp = M.copy()
-            col_means = np.asarray(tmp.mean(0)).reshape(-1)
-            tmp.data **= 2
+            col_means = np.asarray(M.mean(0)).reshape(-1)
     else:
         col_means = np.zeros(M.shape[1])
         ddof = ddof - 1
@@ -441,7 +439,7 @@ def normalize(transform,
         if not sparseM:
             col_scales = np.sqrt((np.sum(M**2,0) - n * col_means**2) / (n - ddof)) 
         else:
-            col_scales = np.asarray(np.sqrt((np.asarray(tmp.sum(0)).reshape(-1) -
+            col_scales = np.asarray(np.sqrt((np.asarray(M.multiply(M).sum(0)).reshape(-1) -
                                              n * col_means**2) / (n - ddof))).reshape(-1)
         nonzero_scales = col_scales > 0
         inv_col_scales = np.zeros_like(col_scales)
-- 
2.43.0


From 07b46d2e61f0407299a8552d330602ef8ae93fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 036/147] fix: trend_filter did not use the sorted knots

---
 regreg/affine/fused_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 9804fec..2f09ff2 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -56,7 +56,7 @@ class trend_filter(affine_transform):
         self.knots = np.sort(knots)
         self.steps = self.knots[1:] - self.knots[:-1]
 
-        self.linear_transform = difference_transform(knots, order=order, sorted=True,
+        self.linear_transform = difference_transform(self.knots, order=order, sorted=True,
                                                      transform=True)
         self.affine_offset = None
         self.input_shape = self.linear_transform.input_shape
@@ -85,7 +85,7 @@ class trend_filter_inverse(affine_transform):
         if order != 1:
             raise ValueError('pseudo inverse only worked out for first order')
             
-        dtransform = difference_transform(knots, order=order, sorted=True,
+        dtransform = difference_transform(self.knots, order=order, sorted=True,
                                           transform=True)
 
         self.affine_offset = None
-- 
2.43.0


From 067af10cfeada448f908ce7cd95345ec285c3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 037/147] fix: the adjoint of trend_filter_inverse summed along
 the wrong axis for several columns

---
 regreg/affine/fused_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 2f09ff2..ec47c8a 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -120,7 +120,7 @@ class trend_filter_inverse(affine_transform):
         if x.ndim == 2:
             # assuming m is the first axis
             x = x - x.mean(0)[np.newaxis,:]
-            C = np.cumsum(x[1:][::-1], 1)[::-1]
+            C = np.cumsum(x[1:][::-1], 0)[::-1]
             return C * self.steps[:,np.newaxis]
 
 
-- 
2.43.0


From 22b8d8b533fb87ea6866fece94a056b3edb0922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 038/147] fix: multiscale and blockwise transforms had no
 affine_offset attribute

---
 regreg/affine/block_maps.py | 2 ++
 regreg/affine/multiscale.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/regreg/affine/block_maps.py b/regreg/affine/block_maps.py
index 995d56c..916e937 100644
--- a/regreg/affine/block_maps.py
+++ b/regreg/affine/block_maps.py
@@ -54,6 +54,7 @@ class block_columns(affine_transform):
             raise ValueError('output of transforms should be stackable')
 
         self.output_shape = _buffer.shape
+        self.affine_offset = _buffer
         self._slices = []
         idx = 0
         for offset in self._offsets:
@@ -146,6 +147,7 @@ class block_rows(affine_transform):
             raise ValueError('output of transforms should be the same and hstackable')
 
         self.output_shape = self._offset.shape
+        self.affine_offset = self._offset
 
     def affine_map(self, arg):
         
diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index dfdd7e5..7351a33 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -56,6 +56,7 @@ class multiscale(affine_transform):
         self.sizes = self.slices['end'] - self.slices['start'] * 1.
         self.input_shape = (p,)
         self.output_shape = (len(self.slices),)
+        self.affine_offset = None
 
     def __copy__(self):
         M = multiscale(self.p)
-- 
2.43.0


From 55bbcecdd4175284b7037e8502769e03bd094165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 039/147] fix: SMUCE_stat failed for a given noise level and
 left the transform's scaling changed

---
 regreg/affine/multiscale.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index 7351a33..a0f5ec8 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -215,8 +215,9 @@ def SMUCE_stat(M, Z, sigma=None):
     M.scaling, old = np.sqrt(M.sizes), M.scaling
     Z0 = Z - Z.mean()
     if sigma is None:
-        sigma_hat = np.std(Z)
-    T = np.fabs(M.linear_map(Z0) / sigma_hat) - np.sqrt(2 * np.log(p / M.sizes))
+        sigma = np.std(Z)
+    T = np.fabs(M.linear_map(Z0) / sigma) - np.sqrt(2 * np.log(p / M.sizes))
+    M.scaling = old
     idx = np.argmax(T)
     return T[idx], M.slices[idx]
 
@@ -251,6 +252,6 @@ def choose_tuning_parameter(M, ndraw=100, quantile=0.95, sigma=None):
     p = M.input_shape[0]
     for i in range(ndraw):
         Z = np.random.standard_normal(p)
-        V.append(SMUCE_stat(M, Z)[0])
+        V.append(SMUCE_stat(M, Z, sigma=sigma)[0])
     return np.percentile(V, 100*quantile)
 
-- 
2.43.0


From a5ffe918eb030808d2566250137d303541394970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:33 +0000
Subject: [PATCH 040/147] fix: the proximal map of the factored nuclear norm
 ignored the lipschitz argument

---
 regreg/affine/factored_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d163e22..92632a9 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -411,7 +411,7 @@ class nuclear_norm(nuclear_norm_atom):
 
     @doc_template_user
     def lagrange_prox(self, X,  lipschitz=1, lagrange=None):
-        lagrange = svd_atom.lagrange_prox(self, X, lipschitz, lagrange)
+        lagrange = svd_atom.lagrange_prox(self, X, lipschitz, lagrange) / lipschitz
 
         def soft_threshold_rule(L):
             return lambda D: np.fabs(D).min() <= L
-- 
2.43.0


From 4db356615999808e606753f8f2a6d6709fca5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:06 +0000
Subject: [PATCH 041/147] fix: factored norms failed for warm starts wider than
 the matrix and for wide matrices

---
 regreg/affine/factored_matrix.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index 92632a9..d01e6f5 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -322,8 +322,8 @@ def partial_svd(transform,
     rank = int(np.min([rank,p]))
     q = np.min([rank + padding, p])
     if warm_start is not None:
-        if warm_start.shape == (n,q):
-            U = warm_start
+        if warm_start.ndim == 2 and warm_start.shape[1] >= q:
+            U = warm_start[:,:q]
         elif len(warm_start.shape) == 1:
             U = np.hstack([warm_start.reshape((warm_start.shape[0],1)), np.random.standard_normal((n,q-1))])            
         else:
@@ -398,7 +398,7 @@ class nuclear_norm(nuclear_norm_atom):
         else:
             self.warm_start = warm_start
             if warm_start.shape != (m, self.initial_rank):
-                raise ValueError('expecting warm_start to have shape %s' % (m, self.initial_rank))
+                raise ValueError('expecting warm_start to have shape (%d, %d)' % (m, self.initial_rank))
 
     @doc_template_user
     def seminorm(self, X, check_feasibility=False,
@@ -512,11 +512,11 @@ class operator_norm(operator_norm_atom):
 
         self.initial_rank = initial_rank
         if warm_start is None:
-            self.warm_start = np.random.standard_normal((self.shape[0], self.initial_rank))
+            self.warm_start = np.random.standard_normal((max(self.shape), self.initial_rank))
         else:
             self.warm_start = warm_start
-            if warm_start.shape != (self.shape[0], self.initial_rank):
-                raise ValueError('expecting warm_start to have shape %s' % (self.shape[0], self.initial_rank))
+            if warm_start.shape != (max(self.shape), self.initial_rank):
+                raise ValueError('expecting warm_start to have shape (%d, %d)' % (max(self.shape), self.initial_rank))
 
         self._nuclear_atom = nuclear_norm(shape,
                                           lagrange=lagrange,
-- 
2.43.0


From 139120cd5a91ed280e976ac5c30fcbfaddc22771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 042/147] fix: comparing quadratics without a center or linear
 term raised an error

---
 regreg/identity_quadratic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 8762578..6a21541 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -32,10 +32,11 @@ class identity_quadratic(object):
 
     def __eq__(self, other):
         if isinstance(other, identity_quadratic):
-            return (allclose(self.coef, other.coef) and
-                    allclose(self.center, other.center) and
-                    allclose(self.linear_term, other.linear_term) and
-                    allclose(self.constant_term, other.constant_term))
+            value = lambda term: 0 if term is None else term
+            return (allclose(value(self.coef), value(other.coef)) and
+                    allclose(value(self.center), value(other.center)) and
+                    allclose(value(self.linear_term), value(other.linear_term)) and
+                    allclose(value(self.constant_term), value(other.constant_term)))
 
     def __init__(self, coef, center, linear_term, constant_term=0):
 
-- 
2.43.0


From 431e437f30345c2b5bdfd41ca428587fc10d42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 043/147] fix: noneify failed for quadratics with a center

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 6a21541..03a4a4e 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -84,8 +84,8 @@ class identity_quadratic(object):
             self.constant_term = 0
         if self.linear_term is not None and all(self.linear_term == 0):
             self.linear_term = None
-        if self.center is not None and all(self.center_term == 0):
-            self.center_term = None
+        if self.center is not None and all(self.center == 0):
+            self.center = None
 
     def zeroify(self):
         for a in ['coef', 'center', 'linear_term', 'constant_term']:
-- 
2.43.0


From bcf5caeebda06d74425f792134574c57dd4e55f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 044/147] fix: recentering a quadratic lost a constant and
 failed without a center or with an integer center

---
 regreg/identity_quadratic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 03a4a4e..e10c784 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -99,7 +99,11 @@ class identity_quadratic(object):
 
         if offset is not None:
             cpq = copy(self)
-            cpq.center -= offset 
+            if cpq.center is None:
+                cpq.center = 0
+            cpq.center = cpq.center - offset 
+            if cpq.linear_term is not None:
+                cpq.constant_term = cpq.constant_term + (cpq.linear_term * offset).sum()
             cpq = cpq.collapsed()
             return offset, cpq
         else:
-- 
2.43.0


From 21ff17d6c985665e0feadd883391907dba7cda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 045/147] fix: the conjugate of a linear function could not be
 computed

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index e10c784..5843ba6 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -256,6 +256,6 @@ class identity_quadratic(object):
                                       -a.constant_term)
         else:
             # possible import problem here
-            from ..atoms.cones import zero_constraint
+            from .atoms.cones import zero_constraint
             q = identity_quadratic(0,0,0,-a.constant_term)
-            return zero_constraint(a.linear_term.shape, offset=-a.linear_term, quadratic=q)
+            return zero_constraint(asarray(a.linear_term).shape, offset=a.linear_term, quadratic=q)
-- 
2.43.0


From daca8ea965b6f22f8189c4795211d34e945416a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 046/147] fix: proximal_optimum raised an error instead of
 returning the optimal value

---
 regreg/problems/composite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 2ae59f8..8a8c226 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -91,10 +91,8 @@ class composite(object):
         and nonsmooth objective the value.
         """
         argmin = self.proximal(quadratic)
-        if self.quadratic is None:
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) 
-        else: 
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) + self.quadratic.objective(argmin, 'func') 
+        # nonsmooth_objective includes self.quadratic
+        return argmin, quadratic.objective(argmin, 'func') + self.nonsmooth_objective(argmin)
 
     def proximal_step(self, quadratic, prox_control=None):
         """
-- 
2.43.0


From cc4a450a88727cd42e7d6e2ef54a12fdc3a9bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 047/147] fix: losses with case weights changed the weights
 passed to them and failed for integer arguments

---
 regreg/smooth/binary.py | 14 +++++++-------
 regreg/smooth/cox.py    |  4 ++--
 regreg/smooth/glm.py    | 12 ++++++------
 regreg/smooth/mglm.py   |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 8d0a9b3..e3a826d 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -92,7 +92,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -169,7 +169,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         if np.max(x) > 1e2:
             overflow = True
@@ -350,7 +350,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -417,7 +417,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -590,7 +590,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -660,7 +660,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -826,7 +826,7 @@ class huber_svm(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         huber_arg = (2 * self.successes - 1) * param # first encode binary as \pm 1
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f977389..f9d11f7 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -97,7 +97,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         censoring = self.censoring
 
@@ -170,7 +170,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         eta = natural_param # shorthand
         eta = self.apply_offset(eta)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e2acad2..55d7d02 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -913,7 +913,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         natural_param = self.apply_offset(natural_param)
         resid = natural_param - self.response 
@@ -957,7 +957,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
         return self.scale(np.ones_like(natural_param) * cw)
 
     def get_data(self):
@@ -1104,7 +1104,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -1151,7 +1151,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         return self.scale(cw * np.exp(x))
             
@@ -1289,7 +1289,7 @@ class huber_loss(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         resid = param - self.response 
@@ -1481,7 +1481,7 @@ class stacked_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         linpred = natural_param # shorthand
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a2e738a..1a78de6 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -345,7 +345,7 @@ class stacked_common_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
-- 
2.43.0


From 247621b68e0827a332623c7b31725f77fa07e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 048/147] fix: probit and cloglog losses and all Hessians
 ignored the offset

---
 regreg/smooth/binary.py | 6 +++++-
 regreg/smooth/glm.py    | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index e3a826d..25768c9 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -171,6 +171,7 @@ class logistic_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
+        x = self.apply_offset(x)
         if np.max(x) > 1e2:
             overflow = True
             not_overflow_ind = np.where(x <= 1e2)[0]
@@ -353,7 +354,7 @@ class probit_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
-
+        x = self.apply_offset(x)
 
         prob = normal_dbn.cdf(x)
         prob[x < -20] = normal_dbn.cdf(-20)   # to prevent overflow
@@ -419,6 +420,7 @@ class probit_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
+        x = self.apply_offset(x)
         pi = self.mean_function(x)
         V = pi * (1 - pi)
         deriv_term = normal_dbn.pdf(x)**2
@@ -593,6 +595,7 @@ class cloglog_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         cutoff = 5
         x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
@@ -662,6 +665,7 @@ class cloglog_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
+        x = self.apply_offset(x)
         pi = self.mean_function(x)
         V = pi * (1 - pi)
         lpdf = x - np.exp(x)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 55d7d02..b5329ca 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -225,7 +225,7 @@ class glm(smooth_atom):
 
         """
 
-        linpred = self.linear_predictor(beta)
+        linpred = self.linear_predictor(self.apply_offset(beta))
         X = self.data[0]
         if self._is_transform:
             raise ValueError('refusing to form Hessian for arbitrary affine_transform, use an ndarray or scipy.sparse')
@@ -1153,6 +1153,7 @@ class poisson_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
+        x = self.apply_offset(x)
         return self.scale(cw * np.exp(x))
             
     def get_data(self):
-- 
2.43.0


From d80a5574c1b646d6791b0945c3aaeb1f2373ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 049/147] fix: the Hessian of a regression loss failed for
 sparse designs

---
 regreg/smooth/glm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index b5329ca..70600a4 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -234,14 +234,18 @@ class glm(smooth_atom):
             if not hasattr(self.saturated_loss, 'hessian_mult'):
                 raise ValueError('loss has no hessian or hessian_mult method')
             right_mult = np.zeros(X.shape)
+            columns = X if not sparse.issparse(X) else X.toarray()
             for j in range(X.shape[1]):
                 right_mult[:,j] = self.saturated_loss.hessian_mult(linpred, 
-                                                                   X[:,j], 
+                                                                   columns[:,j], 
                                                                    case_weights=self.case_weights)
         else:
             W = self.saturated_loss.hessian(linpred, 
                                             case_weights=self.case_weights)
-            right_mult = W[:,None] * X
+            if not sparse.issparse(X):
+                right_mult = W[:,None] * X
+            else:
+                return X.T.dot(sparse.diags(W).dot(X)).toarray()
         if not sparse.issparse(X): # assuming it is an ndarray
             return X.T.dot(right_mult)
         else:
-- 
2.43.0


From 3bc3c570bafe4835823a9565e839a5ffe47b25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 050/147] fix: the Hessian of the logistic loss was wrong for
 other cases when one linear predictor exceeds 100

---
 regreg/smooth/binary.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 25768c9..b52ae30 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -172,15 +172,8 @@ class logistic_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = self.apply_offset(x)
-        if np.max(x) > 1e2:
-            overflow = True
-            not_overflow_ind = np.where(x <= 1e2)[0]
-            exp_x = np.zeros_like(x)
-            exp_x[not_overflow_ind] = np.exp(x[not_overflow_ind])
-            exp_x[~not_overflow_ind] = np.exp(100)
-        else:
-            overflow = False
-            exp_x = np.exp(x)
+        # symmetric in x: this form does not overflow
+        exp_x = np.exp(-np.fabs(x))
 
         return self.scale(exp_x / (1 + exp_x)**2 * self.trials * cw)
 
-- 
2.43.0


From aff976888e71cc0170ac1fc0683214e6b1a8f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 051/147] fix: the value, gradient and Hessian of the probit
 loss were wrong in the tails

---
 regreg/smooth/binary.py | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index b52ae30..15f92d9 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -2,6 +2,7 @@ from copy import copy
 
 import numpy as np
 from scipy import sparse
+from scipy.special import log_ndtr
 from scipy.stats import norm as normal_dbn
 
 from ..identity_quadratic import identity_quadratic
@@ -349,35 +350,22 @@ class probit_loglike(smooth_atom):
         x = natural_param # shorthand
         x = self.apply_offset(x)
 
-        prob = normal_dbn.cdf(x)
-        prob[x < -20] = normal_dbn.cdf(-20)   # to prevent overflow
-        prob_c = normal_dbn.sf(x) # to prevent overflow
-        prob_c[x > 20] = normal_dbn.sf(20)
+        x = np.clip(x, -1e4, 1e4) # to prevent overflow
+        lprob, lprob_c = log_ndtr(x), log_ndtr(-x)
 
-        if mode == 'both':
-
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-            pdf = normal_dbn.pdf(x)
+        if mode in ['both', 'grad']:
+            lpdf = normal_dbn.logpdf(x)
+            g = -self.scale(cw * (self.successes * np.exp(lpdf - lprob) -
+                                  (self.trials - self.successes) * np.exp(lpdf - lprob_c)))
+        if mode in ['both', 'func']:
+            f = -self.scale(np.sum(cw * (self.successes * lprob + 
+                                         (self.trials - self.successes) * lprob_c)))
 
-            f, g = (-self.scale(np.sum(cw * (self.successes * lprob + 
-                                            (self.trials - self.successes) * lprob_c))),
-                     -self.scale(cw * pdf * (self.successes / prob - 
-                                             (self.trials - self.successes) / prob_c)))
+        if mode == 'both':
             return f, g
         elif mode == 'grad':
-            pdf = normal_dbn.pdf(x)
-            g = - self.scale(cw * pdf * (self.successes / prob - 
-                                         (self.trials - self.successes) / prob_c)) 
             return g
-
         elif mode == 'func':
-
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-
-            f = -self.scale(np.sum(cw * (self.successes * lprob + 
-                                         (self.trials - self.successes) * lprob_c)))
             return f
         else:
             raise ValueError("mode incorrectly specified")
@@ -414,10 +402,8 @@ class probit_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = self.apply_offset(x)
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
-        deriv_term = normal_dbn.pdf(x)**2
-        return self.scale(deriv_term * self.trials * cw / V)
+        x = np.clip(x, -1e4, 1e4) # to prevent overflow
+        return self.scale(np.exp(2 * normal_dbn.logpdf(x) - log_ndtr(x) - log_ndtr(-x)) * self.trials * cw)
 
     def get_data(self):
         return self.successes
-- 
2.43.0


From 388fdecb5d17378abe7dd021b494bf839016c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 052/147] fix: the complementary log-log loss was wrong for
 linear predictors beyond 5

---
 regreg/smooth/binary.py | 50 +++++++++++++----------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 15f92d9..a89c7aa 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -576,39 +576,22 @@ class cloglog_loglike(smooth_atom):
         x = natural_param # shorthand
         x = self.apply_offset(x)
 
-        cutoff = 5
-        x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
-        prob_ = 1 - np.exp(-np.exp(x_))
-        prob_c_ = np.exp(-np.exp(x_)) 
-        prob = prob_.copy()
-        prob_c = prob_c_.copy()
-        if mode == 'both':
+        x = np.clip(x, -500, 500) # to prevent overflow
+        exp_x = np.exp(x)
+        prob = -np.expm1(-exp_x)
 
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-            lpdf = x - np.exp(x)
-            pdf = np.exp(lpdf)
+        if mode in ['both', 'grad']:
+            g = -self.scale(cw * (self.successes * np.exp(x - exp_x) / prob - 
+                                  (self.trials - self.successes) * exp_x))
+        if mode in ['both', 'func']:
+            f = -self.scale(np.sum(cw * (self.successes * np.log(prob) - 
+                                         (self.trials - self.successes) * exp_x)))
 
-            f, g = (-self.scale(np.sum(cw * (self.successes * lprob + 
-                                            (self.trials - self.successes) * lprob_c))),
-                     -self.scale(cw * pdf * (self.successes / prob - 
-                                             (self.trials - self.successes) / prob_c)))
+        if mode == 'both':
             return f, g
         elif mode == 'grad':
-            lpdf = x - np.exp(x)
-            pdf = np.exp(lpdf)
-
-            g = - self.scale(cw * pdf * (self.successes / prob - 
-                                         (self.trials - self.successes) / prob_c)) 
             return g
-
         elif mode == 'func':
-
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-
-            f = -self.scale(np.sum(cw * (self.successes * lprob + 
-                                         (self.trials - self.successes) * lprob_c)))
             return f
         else:
             raise ValueError("mode incorrectly specified")
@@ -645,12 +628,9 @@ class cloglog_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = self.apply_offset(x)
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
-        lpdf = x - np.exp(x)
-        pdf = np.exp(lpdf)
-        deriv_term = pdf**2
-        return self.scale(deriv_term * self.trials * cw / V)
+        x = np.clip(x, -500, 500) # to prevent overflow
+        exp_x = np.exp(x)
+        return self.scale(np.exp(x - exp_x) / -np.expm1(-exp_x) * exp_x * self.trials * cw)
 
     def get_data(self):
         return self.successes
@@ -731,8 +711,8 @@ class cloglog_loglike(smooth_atom):
     # End loss API
 
     def mean_function(self, eta, trials=None):
-        eta = np.clip(eta, -5, 5)
-        return 1 - np.exp(-np.exp(eta))
+        eta = np.clip(eta, -500, 500) # to prevent overflow
+        return -np.expm1(-np.exp(eta))
 
 class huber_svm(smooth_atom):
 
-- 
2.43.0


From ce20733e35e2038d7f659c3096295b79b5fd6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 053/147] fix: the value of the Huber SVM loss did not match
 its gradient

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index a89c7aa..952da06 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -889,5 +889,5 @@ def _huber_svm(z, smoothing_parameter):
     eps = smoothing_parameter
     arg = (1 - z) / eps # function of (2 * y - 1) * eta when y is binary
     proj_arg = (0 < arg) * (arg < 1) * arg + (arg >= 1) 
-    return arg * proj_arg - eps * proj_arg**2 / 2, -proj_arg
+    return (1 - z) * proj_arg - eps * proj_arg**2 / 2, -proj_arg
 
-- 
2.43.0


From d988fb4a2abda9e854cb677242b813f21654a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 054/147] fix: copies of logistic, probit, cloglog and Poisson
 losses added the deviance constant twice

---
 regreg/smooth/binary.py | 54 +++++++++++++++++++++++------------------
 regreg/smooth/glm.py    | 16 ++++++------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 952da06..2dc2494 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -212,14 +212,16 @@ class logistic_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return logistic_loglike(self.shape,
-                                copy(successes),
-                                trials=copy(trials),
-                                coef=self.coef,
-                                offset=copy(self.offset),
-                                quadratic=copy(self.quadratic),
-                                initial=copy(self.coefs),
-                                case_weights=copy(self.case_weights))
+        cp = logistic_loglike(self.shape,
+                              copy(successes),
+                              trials=copy(trials),
+                              coef=self.coef,
+                              offset=copy(self.offset),
+                              initial=copy(self.coefs),
+                              case_weights=copy(self.case_weights))
+        # the constructor would add the deviance constant a second time
+        cp.quadratic = copy(self.quadratic)
+        return cp
 
     def subsample(self, case_idx):
         """
@@ -439,14 +441,16 @@ class probit_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return probit_loglike(self.shape,
-                              copy(successes),
-                              trials=copy(trials),
-                              coef=self.coef,
-                              offset=copy(self.offset),
-                              quadratic=copy(self.quadratic),
-                              initial=copy(self.coefs),
-                              case_weights=copy(self.case_weights))
+        cp = probit_loglike(self.shape,
+                            copy(successes),
+                            trials=copy(trials),
+                            coef=self.coef,
+                            offset=copy(self.offset),
+                            initial=copy(self.coefs),
+                            case_weights=copy(self.case_weights))
+        # the constructor would add the deviance constant a second time
+        cp.quadratic = copy(self.quadratic)
+        return cp
 
     def subsample(self, case_idx):
         """
@@ -666,14 +670,16 @@ class cloglog_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return cloglog_loglike(self.shape,
-                               copy(successes),
-                               trials=copy(trials),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        cp = cloglog_loglike(self.shape,
+                             copy(successes),
+                             trials=copy(trials),
+                             coef=self.coef,
+                             offset=copy(self.offset),
+                             initial=copy(self.coefs),
+                             case_weights=copy(self.case_weights))
+        # the constructor would add the deviance constant a second time
+        cp.quadratic = copy(self.quadratic)
+        return cp
 
     def subsample(self, case_idx):
         """
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 70600a4..6d9eb1f 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1170,13 +1170,15 @@ class poisson_loglike(smooth_atom):
 
     def __copy__(self):
         counts = self.data
-        return poisson_loglike(self.shape,
-                               copy(counts),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        cp = poisson_loglike(self.shape,
+                             copy(counts),
+                             coef=self.coef,
+                             offset=copy(self.offset),
+                             initial=copy(self.coefs),
+                             case_weights=copy(self.case_weights))
+        # the constructor would add the deviance constant a second time
+        cp.quadratic = copy(self.quadratic)
+        return cp
 
     def subsample(self, case_idx):
         """
-- 
2.43.0


From 711e5c6e15c43ac1c5d194c4c1c202f03786da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 055/147] fix: the deviance constant of the Poisson loss was
 wrong and undefined for zero counts

---
 regreg/smooth/glm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 6d9eb1f..2efc6c7 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1054,11 +1054,10 @@ class poisson_loglike(smooth_atom):
         if np.min(self.counts) < 0:
             raise ValueError("Counts vector is not non-negative")
 
-        saturated = counts
-        loss_terms = - coef * ((counts - 1) * np.log(counts))
-        loss_terms[counts == 0] = 0
-
-        loss_constant = - coef * loss_terms.sum()
+        saturated = np.asarray(self.counts, float)
+        _mask = saturated != 0
+        loss_terms = np.log(saturated[_mask]) * saturated[_mask] - saturated[_mask]
+        loss_constant = -coef * loss_terms.sum()
 
         devq = identity_quadratic(0,0,0,-loss_constant)
         self.quadratic += devq
-- 
2.43.0


From df572c220fa7e9e85002a8a40359ff06bca3c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 056/147] fix: copies of Huber and Huber SVM losses dropped the
 case weights

---
 regreg/smooth/binary.py | 3 ++-
 regreg/smooth/glm.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 2dc2494..cff6471 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -887,7 +887,8 @@ class huber_svm(smooth_atom):
                          coef=self.coef,
                          offset=copy(self.offset),
                          quadratic=copy(self.quadratic),
-                         initial=copy(self.coefs))
+                         initial=copy(self.coefs),
+                         case_weights=copy(self.case_weights))
     
     # End loss API
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 2efc6c7..88df952 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1386,7 +1386,8 @@ class huber_loss(smooth_atom):
                           coef=self.coef,
                           offset=copy(self.offset),
                           quadratic=copy(self.quadratic),
-                          initial=copy(self.coefs))
+                          initial=copy(self.coefs),
+                          case_weights=copy(self.case_weights))
 
     # End loss API
 
-- 
2.43.0


From 257a84ffbb06b746e8a38b4b7e0eb470d92f6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 057/147] fix: the Cox loss was undefined when all cases still
 at risk have weight zero

---
 regreg/smooth/cox_fns.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index 3ac752a..4c6fc5c 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -98,7 +98,9 @@ void _update_outer_1st(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight / *exp_accum;
+    if (censoring * case_weight > 0) { // a risk set may be empty of weight otherwise
+      cur_val = cur_val + censoring * case_weight / *exp_accum;
+    }
     outer_1st_accum = ((double *) outer_1st_accum_ptr + idx);
     *outer_1st_accum = cur_val;
   }
@@ -134,7 +136,9 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    if (censoring * case_weight > 0) {
+      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
   }
@@ -169,7 +173,9 @@ double _cox_objective(double *linear_pred_ptr,     /* Linear term in objective *
     censoring = *((size_t *) censoring_ptr + idx);
     case_weight = *((double *) case_weight_ptr + idx);
     linear_pred = *((double *) linear_pred_ptr + idx);
-    cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    if (censoring * case_weight > 0) {
+      cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    }
   }
 
   return(cur_val);
-- 
2.43.0


From 235df1fc53ca994bc1908632ccd14a4a72412612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 058/147] fix: the Hessian of the Cox loss ignored its
 coefficient

---
 regreg/smooth/cox.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f9d11f7..044ad1a 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -178,20 +178,20 @@ class cox_loglike(smooth_atom):
 
         H = np.zeros(eta.shape, float)
 
-        return cox_hessian(H,
-                           eta,
-                           right_vector,
-                           self._exp_buffer,
-                           self._exp_accum,
-                           self._expZ_accum,
-                           self._outer_1st,
-                           self._outer_2nd,
-                           cw,
-                           censoring,
-                           self._ordering,
-                           self._rankmin,
-                           self._rankmax,
-                           eta.shape[0])
+        return self.scale(cox_hessian(H,
+                                      eta,
+                                      right_vector,
+                                      self._exp_buffer,
+                                      self._exp_accum,
+                                      self._expZ_accum,
+                                      self._outer_1st,
+                                      self._outer_2nd,
+                                      cw,
+                                      censoring,
+                                      self._ordering,
+                                      self._rankmin,
+                                      self._rankmax,
+                                      eta.shape[0]))
 
     def get_data(self):
         return np.array([self.event_times, self.censoring]).T
-- 
2.43.0


From df059d6b1a620d3fd48e23971f1e23d61e200c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 059/147] fix: gradients returned by the Cox loss were
 overwritten by later evaluations

---
 regreg/smooth/cox.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 044ad1a..3d1375c 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -48,7 +48,6 @@ class cox_loglike(smooth_atom):
             self.case_weights = np.ones(self.event_times.shape, float)
 
         # buffers to store results used by C code
-        self._G = np.zeros(self.event_times.shape, float) # gradient 
         self._exp_buffer = np.zeros(self.event_times.shape, float) # exp(eta)
         self._exp_accum = np.zeros(self.event_times.shape, float) # accum of exp(eta)
         self._expZ_accum = np.zeros(self.event_times.shape, float) # accum of Z*exp(eta)
@@ -102,7 +101,7 @@ class cox_loglike(smooth_atom):
         censoring = self.censoring
 
         if mode in ['both', 'grad']:
-            G = cox_gradient(self._G,
+            G = cox_gradient(np.zeros(self.event_times.shape, float), # callers keep the gradient
                              eta,
                              self._exp_buffer,
                              self._exp_accum,
-- 
2.43.0


From 3218426e7cc49877fefe7f53b7880934d50fbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 060/147] fix: multinomial losses were wrong for linear
 predictors beyond 50

---
 regreg/smooth/mglm.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 1a78de6..851e351 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -744,8 +744,6 @@ class stacked_common_loglike(smooth_atom):
 
 class multinomial_loglike(smooth_atom):
 
-    overflow_clip = 50
-
     """
     An overparametrized multinomial regression for nominal responses (e.g. Agresti, pg 267)
     """
@@ -821,10 +819,8 @@ class multinomial_loglike(smooth_atom):
         if mode == 'func', return only the function value
         """
         eta = self.apply_offset(natural_param)  # shorthand
-        eta = np.clip(eta, 
-                      -self.overflow_clip, 
-                      self.overflow_clip) # to prevent overflow
-        exp_eta = np.exp(eta)
+        eta = eta - np.max(eta, axis=1)[:,None] # the loss is unchanged by this shift
+        exp_eta = np.exp(eta)                   # which prevents overflow
 
         if case_weights is None:
             cw = np.ones(natural_param.shape[0])
@@ -881,8 +877,6 @@ class multinomial_loglike(smooth_atom):
 
 class multinomial_baseline_loglike(smooth_atom):
 
-    overflow_clip = 50
-
     """
     A class for baseline-category logistic regression for nominal responses (e.g. Agresti, pg 267)
     """
@@ -965,10 +959,10 @@ class multinomial_baseline_loglike(smooth_atom):
         if mode == 'func', return only the function value
         """
         eta = self.apply_offset(natural_parameter) # shorthand
-        eta = np.clip(eta, 
-                      -self.overflow_clip, 
-                      self.overflow_clip) # to prevent overflow
-        exp_eta = np.exp(eta)
+        shift = np.maximum(np.max(eta, axis=1), 0) # to prevent overflow
+        exp_eta = np.exp(eta - shift[:,None])
+        exp_sum = np.exp(-shift) + np.sum(exp_eta, axis=1)
+        log_sum = shift + np.log(exp_sum)
 
         if case_weights is None:
             cw = np.ones(eta.shape[0])
@@ -979,16 +973,16 @@ class multinomial_baseline_loglike(smooth_atom):
         #JT: should be able to do this with np.newaxis
 
         if mode == 'both':
-            ratio = ((self.trials/(1. + np.sum(exp_eta, axis=1))) * exp_eta.T).T
-            f, g = (- self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, np.log(1. + np.sum(exp_eta, axis=1)))), 
+            ratio = ((self.trials/exp_sum) * exp_eta.T).T
+            f, g = (- self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, log_sum)), 
                       - self.scale(cw[:,None] * (self.firstcounts - ratio)))
             return f, g
         elif mode == 'grad':
-            ratio = ((self.trials/(1. + np.sum(exp_eta, axis=1))) * exp_eta.T).T
+            ratio = ((self.trials/exp_sum) * exp_eta.T).T
             f, g = None, - self.scale(cw[:,None] * (self.firstcounts - ratio))
             return g
         elif mode == 'func':
-            f, g = - self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, np.log(1. + np.sum(exp_eta, axis=1)))), None
+            f, g = - self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, log_sum)), None
             return f
         else:
             raise ValueError("mode incorrectly specified")
-- 
2.43.0


From cce052709a33328b857b5b1555efd3099a038ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 061/147] fix: multinomial losses ignored the case weights
 given at construction

---
 regreg/smooth/mglm.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 851e351..aa17e6e 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -823,9 +823,10 @@ class multinomial_loglike(smooth_atom):
         exp_eta = np.exp(eta)                   # which prevents overflow
 
         if case_weights is None:
-            cw = np.ones(natural_param.shape[0])
-        else:
-            cw = case_weights
+            case_weights = np.ones(natural_param.shape[0])
+        cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         if mode == 'both':
             ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
@@ -965,9 +966,10 @@ class multinomial_baseline_loglike(smooth_atom):
         log_sum = shift + np.log(exp_sum)
 
         if case_weights is None:
-            cw = np.ones(eta.shape[0])
-        else:
-            cw = case_weights
+            case_weights = np.ones(eta.shape[0])
+        cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         #TODO: Using transposes to scale the rows of a 2d array - should we use an affine_transform to do this?
         #JT: should be able to do this with np.newaxis
-- 
2.43.0


From 46d93fbf52f7405d28ec01d08758236e24d48bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 062/147] fix: subsampling a multinomial loss changed the case
 weights of the original

---
 regreg/smooth/mglm.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index aa17e6e..d76aad4 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -843,6 +843,18 @@ class multinomial_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        cp = self.__class__(self.shape,
+                            copy(self.counts),
+                            coef=self.coef,
+                            offset=copy(self.offset),
+                            quadratic=copy(self.quadratic),
+                            initial=copy(self.coefs),
+                            case_weights=copy(self.case_weights))
+        # the constructor would add the deviance constant a second time
+        cp.quadratic = copy(self.quadratic)
+        return cp
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
@@ -989,6 +1001,18 @@ class multinomial_baseline_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        cp = self.__class__(self.shape,
+                            copy(self.counts),
+                            coef=self.coef,
+                            offset=copy(self.offset),
+                            quadratic=copy(self.quadratic),
+                            initial=copy(self.coefs),
+                            case_weights=copy(self.case_weights))
+        # the constructor would add the deviance constant a second time
+        cp.quadratic = copy(self.quadratic)
+        return cp
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
-- 
2.43.0


From b809412e26ee0cb2feb532520cd742dc9f2c5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 063/147] fix: setting the data of a multinomial loss had no
 effect

---
 regreg/smooth/mglm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index d76aad4..cb1988a 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -803,6 +803,7 @@ class multinomial_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        self.counts, self.trials = data
 
     data = property(get_data, set_data)
 
@@ -956,6 +957,8 @@ class multinomial_baseline_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        self.counts, self.trials = data
+        self.firstcounts = self.counts[:,range(self.J-1)]
 
     data = property(get_data, set_data)
 
-- 
2.43.0


From d2194e598146b4a21393fa479ed752f9e702fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 064/147] fix: gradients returned by stacked losses were
 overwritten by later evaluations

---
 regreg/smooth/glm.py  | 10 +++++-----
 regreg/smooth/mglm.py | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 88df952..234df76 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1442,7 +1442,6 @@ class stacked_loglike(smooth_atom):
             idx += l.shape[0]
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -1493,10 +1492,11 @@ class stacked_loglike(smooth_atom):
         linpred = natural_param # shorthand
 
         linpred = self.apply_offset(linpred)
+        gradient = np.zeros(self.shape)
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
-            return self.scale(self._gradient)
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
@@ -1506,9 +1506,9 @@ class stacked_loglike(smooth_atom):
             value = 0
             for d, slice in enumerate(self._slices):
                 f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
-                self._gradient[slice] = g
+                gradient[slice] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index cb1988a..6c0a7be 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -299,7 +299,6 @@ class stacked_common_loglike(smooth_atom):
         self.data = np.array([l.data for l in losses]).T
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -350,12 +349,13 @@ class stacked_common_loglike(smooth_atom):
         x = natural_param # shorthand
 
         x = self.apply_offset(x)
+        gradient = np.zeros(self.shape)
         if mode == 'grad':
             for i in range(len(self._losses)):
-                self._gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
-                                                                       'grad', 
-                                                                       case_weights=cw) 
-            return self.scale(self._gradient)
+                gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
+                                                                 'grad', 
+                                                                 case_weights=cw) 
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for i in range(len(self._losses)):
@@ -369,9 +369,9 @@ class stacked_common_loglike(smooth_atom):
                 f, g = self._losses[i].smooth_objective(x[:,i], 
                                                         'both', 
                                                         case_weights=cw)
-                self._gradient[:,i] = g
+                gradient[:,i] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
-- 
2.43.0


From 846f761b8ffb47222b19d1ce4cdd51f9851da4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 065/147] fix: stacked losses ignored case weights

---
 regreg/smooth/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 234df76..68214c0 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1495,17 +1495,17 @@ class stacked_loglike(smooth_atom):
         gradient = np.zeros(self.shape)
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
-                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
             return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
-                value += self._losses[d].smooth_objective(linpred[slice], 'func')
+                value += self._losses[d].smooth_objective(linpred[slice], 'func', case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
             value = 0
             for d, slice in enumerate(self._slices):
-                f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
+                f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
                 gradient[slice] = g
                 value += f
             return self.scale(value), self.scale(gradient)
-- 
2.43.0


From 810fc71c198bf4e1cf126e8e11c2f8bb18d375ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 066/147] fix: setting the data of a stacked loss had no effect

---
 regreg/smooth/glm.py  | 8 +++++---
 regreg/smooth/mglm.py | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 68214c0..ea0d8d6 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1429,9 +1429,9 @@ class stacked_loglike(smooth_atom):
         shapes = [r.shape for r in responses]
         dims = np.array([len(s) for s in shapes])
         if np.all(dims == 1):
-            self.data = np.hstack(responses)
+            self._data = np.hstack(responses)
         elif np.all(dims == 2):
-            self.data = np.vstack(responses)
+            self._data = np.vstack(responses)
         else:
             raise ValueError('expecting either 1 or dimensional data for saturated losses')
 
@@ -1517,11 +1517,13 @@ class stacked_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        for loss, slice in zip(self._losses, self._slices):
+            loss.data = data[slice]
 
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_loglike(copy(self._losses),
+        return stacked_loglike([copy(l) for l in self._losses],
                                coef=self.coef,
                                offset=copy(self.offset),
                                quadratic=copy(self.quadratic),
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 6c0a7be..57573e9 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -296,7 +296,7 @@ class stacked_common_loglike(smooth_atom):
                              coef=coef)
 
         assert(np.all([l.shape == losses[0].shape for l in losses]))
-        self.data = np.array([l.data for l in losses]).T
+        self._data = np.array([l.data for l in losses]).T
 
         self._losses = losses
 
@@ -380,11 +380,13 @@ class stacked_common_loglike(smooth_atom):
 
     def set_data(self, data):
         self._data = data
+        for loss, response in zip(self._losses, np.asarray(data).T):
+            loss.data = response
 
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_common_loglike(copy(self._losses),
+        return stacked_common_loglike([copy(l) for l in self._losses],
                                       coef=self.coef,
                                       offset=copy(self.offset),
                                       quadratic=copy(self.quadratic),
-- 
2.43.0


From c4152bd83fbe1892b30b99d7b3cf6a17983d7b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 067/147] fix: setting the data of a Cox loss kept the ordering
 of the previous event times

---
 regreg/smooth/cox.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 3d1375c..4cff9b2 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -35,10 +35,6 @@ class cox_loglike(smooth_atom):
 
         self.data = np.asarray([event_times, censoring]).T
 
-        self._ordering = np.argsort(self.event_times).astype(np.intp)
-        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
-        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
-
         if case_weights is not None:
             case_weights = np.asarray(case_weights).astype(float)
             if not np.all(case_weights >= 0):
@@ -199,6 +195,9 @@ class cox_loglike(smooth_atom):
         event_times, censoring = np.asarray(data).T
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
+        self._ordering = np.argsort(self.event_times).astype(np.intp)
+        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
+        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
 
     data = property(get_data, set_data)
 
-- 
2.43.0


From 5d8d4a47f5491c1743c596f324c0a4ab1d610bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 068/147] fix: most class methods of stacked losses failed or
 ignored the coefficient

---
 regreg/smooth/glm.py  | 44 +++++++++++++++++++++++++------------------
 regreg/smooth/mglm.py | 30 ++++++++++++++---------------
 2 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index ea0d8d6..210b764 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1655,8 +1655,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [logistic_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -1709,8 +1713,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [probit_loglike(successes[i],
-                                 trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [probit_loglike(successes[i].shape,
+                                 successes[i],
+                                 trials=trials[i],
                                  coef=coef)
                   for i in range(len(successes))]
 
@@ -1763,8 +1771,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [cloglog_loglike(successes[i],
-                                  trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [cloglog_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=trials[i],
                                   coef=coef)
                   for i in range(len(successes))]
 
@@ -1812,10 +1824,10 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -1825,7 +1837,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def huber(klass,
-              X, 
               responses,
               smoothing_parameter,
               case_weights=None,
@@ -1869,7 +1880,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef)
                   for response in responses]
 
         return klass(losses,
@@ -1880,7 +1892,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def huber_svm(klass,
-                  X, 
                   successes,
                   smoothing_parameter,
                   case_weights=None,
@@ -1924,7 +1935,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef)
                   for response in successes]
 
         return klass(losses,
@@ -1935,7 +1947,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def cox(klass, 
-            X, 
             event_times,
             censoring,
             coef=1., 
@@ -1949,9 +1960,6 @@ class stacked_loglike(smooth_atom):
         Parameters
         ----------
 
-        X : [ndarray, `regreg.affine.affine_transform`]
-            Design matrix
-
         event_times : ndarray
             Observed times for Cox proportional hazard model.
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 57573e9..2bb1826 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -518,8 +518,12 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [logistic_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -567,10 +571,10 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -580,8 +584,7 @@ class stacked_common_loglike(smooth_atom):
 
     @classmethod
     def huber(klass,
-              X, 
-              response,
+              responses,
               smoothing_parameter,
               case_weights=None,
               coef=1., 
@@ -624,7 +627,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef)
                   for response in responses]
 
         return klass(losses,
@@ -635,7 +639,6 @@ class stacked_common_loglike(smooth_atom):
 
     @classmethod
     def huber_svm(klass,
-                  X, 
                   successes,
                   smoothing_parameter,
                   case_weights=None,
@@ -679,7 +682,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef)
                   for response in successes]
 
         return klass(losses,
@@ -690,7 +694,6 @@ class stacked_common_loglike(smooth_atom):
 
     @classmethod
     def cox(klass, 
-            X, 
             event_times,
             censoring,
             coef=1., 
@@ -704,9 +707,6 @@ class stacked_common_loglike(smooth_atom):
         Parameters
         ----------
 
-        X : [ndarray, `regreg.affine.affine_transform`]
-            Design matrix
-
         event_times : ndarray
             Observed times for Cox proportional hazard model.
 
-- 
2.43.0


From 135f0ab54dcd24ae81d7297aa17d317b475452bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 069/147] fix: mglm.stacked always failed

---
 regreg/smooth/mglm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 2bb1826..8f02bb8 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -257,7 +257,6 @@ class mglm(glm):
         """
 
         loss = stacked_common_loglike(losses,
-                                      successes,
                                       coef=coef,
                                       offset=saturated_offset)
 
-- 
2.43.0


From 94da963b80718e92f0781e84ac245ed30240bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 070/147] fix: negative case weights were accepted for
 multiresponse models

---
 regreg/smooth/mglm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 8f02bb8..25a4fac 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -74,7 +74,12 @@ class mglm(glm):
         self.affine_atom = affine_smooth(loss, X)
         if case_weights is None:
             case_weights = np.ones(X.shape[0])
-        self.case_weights = case_weights
+        if not np.all(case_weights >= 0):
+            raise ValueError('case_weights should be non-negative')
+        self.case_weights = np.asarray(case_weights)
+        if self.case_weights.shape != loss.shape[:1]:
+            raise ValueError('case_weights should have same shape as loss.shape[:1]')
+
         smooth_atom.__init__(self,
                              (X.shape[1], loss.shape[1]),
                              coef=1.,
-- 
2.43.0


From be83d486f5691824c3937b5e72cea1e6e7bb30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 071/147] fix: smooth functions ignored their initial
 coefficients

---
 regreg/smooth/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 1cb06d6..279721b 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -49,7 +49,6 @@ class smooth_atom(smooth_composite):
         self.coef = coef
         if coef < 0:
             raise ValueError('coefs must be nonnegative to ensure convexity (assuming all atoms are indeed convex)')
-        self.coefs = np.zeros(self.shape)
 
     def smooth_objective(self, arg, mode='both', check_feasibility=False):
         """
-- 
2.43.0


From 0f2903dcf838a5dd5c3e0f8ae164da50d48b8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 072/147] fix: a sum of smooth functions shared the
 coefficients of its first term

---
 regreg/smooth/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 279721b..348c703 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -321,7 +321,7 @@ class sum(smooth_atom):
             raise ValueError('weights and atoms have different lengths')
         if np.any(self.weights < 0):
             raise ValueError('weights should be non-negative to maintain convexity')
-        self.coefs = self.atoms[0].coefs
+        self.coefs = self.atoms[0].coefs.copy()
         self.shape = self.coefs.shape
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
-- 
2.43.0


From e8e8fffca4b38c2f41497defcbcb7edc7e7e86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 073/147] fix: a sum of smooth functions with integer weights
 failed for integer arguments

---
 regreg/smooth/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 348c703..e4a57f3 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -316,7 +316,7 @@ class sum(smooth_atom):
         self.atoms = atoms
         if weights is None:
             weights = np.ones(len(self.atoms))
-        self.weights = np.asarray(weights).reshape(-1)
+        self.weights = np.asarray(weights, float).reshape(-1)
         if self.weights.shape[0] != len(atoms):
             raise ValueError('weights and atoms have different lengths')
         if np.any(self.weights < 0):
-- 
2.43.0


From 1ebde17fd652a87a48962375be8cdfb700e98e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 074/147] fix: a sum of smooth functions dropped the quadratic
 terms of its atoms

---
 regreg/smooth/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index e4a57f3..369c527 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -324,6 +324,15 @@ class sum(smooth_atom):
         self.coefs = self.atoms[0].coefs.copy()
         self.shape = self.coefs.shape
 
+        # the quadratic terms of the atoms are part of the sum
+        self.quadratic = identity_quadratic(0, 0, 0, 0)
+        for w, atom in zip(self.weights, self.atoms):
+            q = atom.quadratic.collapsed()
+            self.quadratic += identity_quadratic(w * (q.coef or 0),
+                                                 0,
+                                                 0 if q.linear_term is None else w * q.linear_term,
+                                                 w * (q.constant_term or 0))
+
     def smooth_objective(self, x, mode='both', check_feasibility=False):
 
         """
-- 
2.43.0


From e5e8209d3a252aa6cd1b250975bb23ee543b4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 075/147] fix: conjugates of quadratic losses with a matrix or
 diagonal could not be computed

---
 regreg/smooth/quadratic.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index f0c48dd..bae6fd9 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -169,22 +169,29 @@ class quadratic_loss(smooth_atom):
             as_quad = (identity_quadratic(self.coef, self.offset, 0, 0) + self.quadratic).collapsed()
             return smooth_conjugate(zero(self.shape, quadratic=as_quad))
         else:
-            #XXX this needs to be tested
+            # the objective is x^T(coef * Q + sq.coef * I)x/2 + linear_term^Tx + constant
             sq = self.quadratic.collapsed()
+            linear_term = np.zeros(self.shape)
+            constant = sq.constant_term or 0
+            if sq.linear_term is not None:
+                linear_term = linear_term + sq.linear_term
             if self.offset is not None:
-                sq.linear_term -= self.scale(self.Q_transform.linear_map(self.offset))
-            if self.Q_transform.diagD:
+                Q_offset = self.scale(self.Q_transform.linear_map(self.offset))
+                linear_term = linear_term - Q_offset
+                constant = constant + np.sum(self.offset * Q_offset) / 2.
+            outq = identity_quadratic(0, 0, 0, -constant)
+            if self.Qdiag:
                 return quadratic_loss(self.shape,
-                                      Q=1./(self.coef*self.Q_transform.linear_operator + sq.coef),
-                                      offset=offset,
+                                      Q=1./(self.coef*self.Q_transform.scalings + sq.coef),
+                                      offset=linear_term,
                                       quadratic=outq, 
                                       coef=1.,
                                       Qdiag=True)
             elif factor:
                 return quadratic_loss(self.shape,
-                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape)),
+                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape[0])),
                                       Qdiag=False,
-                                      offset=offset,
+                                      offset=linear_term,
                                       quadratic=outq,
                                       coef=1.)
             else:
-- 
2.43.0


From a292dc26d3a5e28cf77a2776b89557338fe909a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 076/147] fix: banded Cholesky solves failed or returned wrong
 results

---
 regreg/smooth/quadratic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index bae6fd9..0290082 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -214,8 +214,8 @@ class cholesky(object):
     '''
 
     def __init__(self, Q, cholesky=None, banded=False):
-        self.input_shape = Q.shape[0]
-        self.output_shape = Q.shape[0]
+        # in banded storage Q has a row for each band
+        self.input_shape = self.output_shape = (Q.shape[-1],)
         self.affine_offset = None
         self._Q = Q
         self.banded = banded
@@ -223,7 +223,7 @@ class cholesky(object):
             if not self.banded:
                 self._cholesky = cho_factor(Q)
             else:
-                self._cholesky = cholesky_banded(Q)
+                self._cholesky = (cholesky_banded(Q), False)
         else:
             self._cholesky = cholesky
 
-- 
2.43.0


From 08988c3e994d857f31de152d677b2eeb845078b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 077/147] fix: the huberized SVM loss ignored its coefficient
 and offset

---
 regreg/smooth/losses.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/losses.py b/regreg/smooth/losses.py
index 0551b70..dea95f1 100644
--- a/regreg/smooth/losses.py
+++ b/regreg/smooth/losses.py
@@ -65,7 +65,10 @@ class huberized_svm(smooth_atom):
         else returns both.
         """
         
-        return self.smoothed_atom.smooth_objective(beta,
-                                                   mode=mode,
-                                                   check_feasibility=check_feasibility)
+        value = self.smoothed_atom.smooth_objective(self.apply_offset(beta),
+                                                    mode=mode,
+                                                    check_feasibility=check_feasibility)
+        if mode == 'both':
+            return self.scale(value[0]), self.scale(value[1])
+        return self.scale(value)
 
-- 
2.43.0


From bfd20328560938b4f1f7a3e29daf4c14527197d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 078/147] fix: the optimal value returned by solve of a smooth
 function left out the quadratic term it was given

---
 regreg/problems/composite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 8a8c226..93f0b03 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -216,10 +216,11 @@ class smooth(composite):
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         self.solver = FISTA(self)
         self.solver.fit(**fit_args)
+        optimum = self.objective(self.coefs)
         self.quadratic = oldq
 
         if return_optimum:
-            return self.objective(self.coefs), self.coefs
+            return optimum, self.coefs
         else:
             return self.coefs
 
-- 
2.43.0


From f4b6470219c04b5e8eb0fe28c48bd0aae7e8b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 079/147] fix: setting the data of a regression loss kept the
 old design

---
 regreg/smooth/glm.py  | 2 +-
 regreg/smooth/mglm.py | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 210b764..b11aa77 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -74,7 +74,6 @@ class glm(smooth_atom):
 
         self.saturated_loss = loss
         self.data = X, Y
-        self.affine_atom = affine_smooth(loss, X)
         if case_weights is None:
             case_weights = np.ones(X.shape[0])
         self.case_weights = case_weights
@@ -143,6 +142,7 @@ class glm(smooth_atom):
         self._X = X
         self._is_transform = id(self._X) == id(self._transform) # i.e. astransform was a nullop
         self.saturated_loss.data = Y
+        self.affine_atom = affine_smooth(self.saturated_loss, X)
 
     data = property(get_data, set_data, doc="Data for the general linear model.")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 25a4fac..8770260 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -71,7 +71,6 @@ class mglm(glm):
 
         self.saturated_loss = loss
         self.data = X, loss.data
-        self.affine_atom = affine_smooth(loss, X)
         if case_weights is None:
             case_weights = np.ones(X.shape[0])
         if not np.all(case_weights >= 0):
-- 
2.43.0


From 08b640635d7616e2e6acb451cf770fa0856cb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 080/147] fix: copies of scaled regression losses lost their
 scale

---
 regreg/smooth/glm.py  | 16 +++++++++-------
 regreg/smooth/mglm.py | 14 ++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index b11aa77..92bbd3a 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -257,13 +257,15 @@ class glm(smooth_atom):
     def __copy__(self):
         klass = self.__class__
         X, Y = self.data
-        return klass(copy(X), 
-                     copy(Y), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=self.case_weights.copy())
+        cp = klass(copy(X), 
+                   copy(Y), 
+                   copy(self.saturated_loss), 
+                   quadratic=copy(self.quadratic),
+                   initial=copy(self.coefs),
+                   offset=copy(self.offset),
+                   case_weights=self.case_weights.copy())
+        cp.coef = self.coef
+        return cp
 
     def subsample(self, idx):
         """
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 8770260..b745b26 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -140,12 +140,14 @@ class mglm(glm):
     def __copy__(self):
         klass = self.__class__
         X, _ = self.data
-        return klass(copy(X), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=copy(self.case_weights))
+        cp = klass(copy(X), 
+                   copy(self.saturated_loss), 
+                   quadratic=copy(self.quadratic),
+                   initial=copy(self.coefs),
+                   offset=copy(self.offset),
+                   case_weights=copy(self.case_weights))
+        cp.coef = self.coef
+        return cp
        
     @classmethod
     def multinomial(klass, 
-- 
2.43.0


From 854dd3ebe0840d994d230ee32074acce56039eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 081/147] fix: restarting the accelerated method did not reset
 its weights

---
 regreg/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index b034926..9f53990 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -122,7 +122,7 @@ class FISTA(algorithm):
                 if self.debug:
                     print("\tRestarting weights")
                 self.working_coefs = self.composite.coefs
-                t_old = 1.
+                self.weight_old = 1.
 
             objective_hist[itercount] = working_obj
 
-- 
2.43.0


From f4def4ed87395b019322b86e2e0069b1890a8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 082/147] fix: fit ignored FISTA=False

---
 regreg/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index 9f53990..9a3ee42 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -92,6 +92,7 @@ class FISTA(algorithm):
         if debug is not None:
             self.debug = debug
         self.prox_control = {}
+        self.use_momentum = FISTA
 
         objective_hist = np.zeros(max_its)
         
@@ -215,7 +216,7 @@ class FISTA(algorithm):
             return objective_hist[:itercount]
 
     def update_working_coefs(self, proposed_coefs):
-        if FISTA:
+        if self.use_momentum:
             #Use Nesterov weights
             self.weight_new = 0.5 * (1 + np.sqrt(1+4*(self.weight_old**2)))
             #XXX should that be self.working_coefs or self.composite.coefs at the end of this line?
-- 
2.43.0


From 2ac44691541329d0ddb3e6d9ef04ce9b0dfa0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 083/147] fix: a failing solve left its quadratic in the
 problem

---
 regreg/problems/simple.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index c782fef..6430d9e 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -80,16 +80,18 @@ class simple_problem(composite):
         else:
             oldq = self.quadratic
 
-        solver = FISTA(self)
-        solver.composite.coefs[:] = self.coefs
-        self.solver_results = solver.fit(**fit_args)
-        self.final_step = solver.step
-
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+        try:
+            solver = FISTA(self)
+            solver.composite.coefs[:] = self.coefs
+            self.solver_results = solver.fit(**fit_args)
+            self.final_step = solver.step
+
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            self.quadratic = oldq
         return value
 
     
-- 
2.43.0


From 14750d75819ad50bc1ab5ef989d39025c28dfd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 084/147] fix: gengrad took steps that solve the whole problem
 again and converged to another point

---
 regreg/problems/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 6430d9e..8a11a14 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -106,7 +106,7 @@ def gengrad(simple_problem, lipschitz, tol=1.0e-8, max_its=1000, debug=False,
     while True:
         vnew, g = simple_problem.smooth_objective(coef, 'both')
         vnew += simple_problem.nonsmooth_objective(coef)
-        newcoef = simple_problem.solve(identity_quadratic(lipschitz, coef, g, 0))
+        newcoef = simple_problem.proximal(identity_quadratic(lipschitz, coef, g, 0))
         if coef_stop:
             coef_stop_check = (np.linalg.norm(coef-newcoef) <= tol * 
                                np.max([np.linalg.norm(coef),
-- 
2.43.0


From 156b12b11c98ca05c0ff2c9a86aa2dcb4e565b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 085/147] fix: the selectors of a separable penalty could not
 be computed

---
 regreg/problems/separable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index eae94b5..73b2bfc 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -168,7 +168,7 @@ class separable(atom):
 
     @property
     def selectors(self):
-        return [selector(group, self.shape, reshape)
+        return [selector(group, self.shape, reshape=shape)
                 for group, shape in zip(self.groups, self.shapes)]
 
 class separable_problem(simple_problem):
-- 
2.43.0


From f58217cd7d8be0aae856b268cb8ae09d23e5fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 086/147] fix: a separable penalty with initial coefficients
 had no coefficients

---
 regreg/problems/separable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 73b2bfc..e9ec5b0 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -77,6 +77,8 @@ class separable(atom):
 
         if initial is None:
             self.coefs = np.zeros(shape)
+        else:
+            self.coefs = np.array(initial)
 
     def latexify(self, var=None, idx=''):
         # BUG idx is unused
-- 
2.43.0


From 80282a4e3ba302a8f4c87be2fc4ee122002a9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 087/147] fix: a group given twice was not reported as overlap

---
 regreg/problems/separable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index e9ec5b0..4ea055c 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -50,7 +50,7 @@ def has_overlap(shape, groups):
         for j in range(i):
             subset1 = subsets[i]
             subset2 = subsets[j]
-            if subset1 != subset2 and subset1.intersection(subset2):
+            if subset1.intersection(subset2):
                     return True
     return False
 
-- 
2.43.0


From a187bfd1ad08100e08dd24de00ae406e34b9026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 088/147] fix: separable penalties ignored their quadratic in
 the value and the proximal map

---
 regreg/problems/separable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 4ea055c..e5a6377 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -131,12 +131,13 @@ class separable(atom):
                 x_group.shape = shape
             value += atom.nonsmooth_objective(x_group,
                                               check_feasibility=check_feasibility)
-        return value
+        return value + self.quadratic.objective(x, 'func')
 
     def proximal(self, proxq, prox_control=None):
         # This allows separable to not have every
         # coefficient penalized in a natural way
         # because this instantiates it at the prox map of the zero penalty
+        proxq = proxq + self.quadratic
         v = self.zero_atom.proximal(proxq)
         for atom, group, shape, assign_shape in zip(self.atoms,
                                                     self.groups,
-- 
2.43.0


From f18ca45aceefc3f4645877fa5c427700d9423ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 089/147] fix: separable penalties with reshaped groups failed
 for some quadratics and layouts

---
 regreg/problems/separable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index e5a6377..17db81a 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -13,6 +13,7 @@ from ..atoms import atom, affine_atom
 from ..problems.simple import simple_problem
 from ..atoms.cones import zero
 from .composite import smooth_conjugate
+from ..identity_quadratic import identity_quadratic
 
 def has_overlap(shape, groups):
     """
@@ -104,7 +105,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.seminorm(x_group,
                                    lagrange=lagrange,
                                    check_feasibility=check_feasibility)
@@ -117,7 +118,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.constraint(x_group, bound=bound)
         return value
 
@@ -128,7 +129,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.nonsmooth_objective(x_group,
                                               check_feasibility=check_feasibility)
         return value + self.quadratic.objective(x, 'func')
@@ -145,7 +146,10 @@ class separable(atom):
                                                     self.assign_shapes):
             proxq_group = proxq[group]
             if shape is not None:
-                proxq_group.linear_term.shape = shape
+                proxq_group = identity_quadratic(proxq_group.coef,
+                                                 np.reshape(proxq_group.center, shape) if np.ndim(proxq_group.center) else proxq_group.center,
+                                                 np.reshape(proxq_group.linear_term, shape) if np.ndim(proxq_group.linear_term) else proxq_group.linear_term,
+                                                 0)
             v[group] = atom.proximal(proxq_group, prox_control).reshape(assign_shape)
         return v
 
-- 
2.43.0


From a846242f4c4504f9a3f01ce6c0b351265f2fc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 090/147] fix: the conjugate of a separable penalty ignored
 unpenalized coordinates and linear terms

---
 regreg/problems/separable.py | 38 ++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 17db81a..fa72b1d 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -6,6 +6,8 @@ The penalty is specified by a primal shape, a sequence of atoms and
 a sequence of slicing objects.
 """
 
+from copy import copy
+
 import numpy as np
 
 from ..affine import selector
@@ -155,12 +157,40 @@ class separable(atom):
 
     @property
     def conjugate(self):
-        if self.quadratic.coef == 0:
+        if self.quadratic.coef in [0, None]:
+            atoms, groups, shapes = list(self.atoms), list(self.groups), list(self.shapes)
+
+            # the conjugate of the zero penalty on the coordinates in 
+            # none of the groups is a constraint
+            free = np.ones(self.shape, np.bool_)
+            for group in groups:
+                free[group] = False
+            if free.any():
+                atoms.append(zero((int(free.sum()),)))
+                groups.append(free)
+                shapes.append(None)
+
+            if not self.quadratic.iszero:
+                # the quadratic is linear: each atom takes its part, 
+                # and the first one the constant
+                quadratic = self.quadratic.collapsed()
+                linear_term = np.zeros(self.shape) + quadratic.linear_term
+                constant_term = quadratic.constant_term
+                tilted = []
+                for atom, group in zip(atoms, groups):
+                    atom = copy(atom)
+                    atom.quadratic = atom.quadratic + identity_quadratic(0, 0, 
+                                                                         linear_term[group].reshape(atom.shape), 
+                                                                         constant_term)
+                    constant_term = 0
+                    tilted.append(atom)
+                atoms = tilted
+
             conjugate_atom = separable(self.shape,
                                        [atom.conjugate 
-                                        for atom in self.atoms],
-                                       self.groups,
-                                       shapes=self.shapes)
+                                        for atom in atoms],
+                                       groups,
+                                       shapes=shapes)
         else:
             conjugate_atom = smooth_conjugate(self)
         self._conjugate = conjugate_atom
-- 
2.43.0


From 161a7d462c9e0c5519de5e35c9290823b258ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 091/147] fix: solve of a container ignored the quadratic it
 was given

---
 regreg/problems/container.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 526e7ca..2c79a31 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -156,18 +156,19 @@ class container(composite):
                 return primal.proximal(proxq)
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
+        oldq = self.quadratic
         if quadratic is not None:
-            oldq, newq = self.quadratic, self.quadratic + quadratic
-        else:
-            oldq = newq = self.quadratic
+            self.quadratic = self.quadratic + quadratic
 
-        solver = FISTA(self)
-        solver.fit(**fit_args)
+        try:
+            solver = FISTA(self)
+            solver.fit(**fit_args)
 
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            self.quadratic = oldq
         return value
 
-- 
2.43.0


From b7dca1ba2ef3744ad4d0c4b90899011ec63e0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 092/147] fix: the proximal map of a container ignored its
 quadratic terms

---
 regreg/problems/container.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 2c79a31..fad3af4 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -106,7 +106,8 @@ class container(composite):
             prox_control = prox_defaults
 
             primal_objective = zero_nonsmooth(transform.input_shape)
-            primal_objective.quadratic = proxq + self.quadratic + self.smoothq
+            totalq = (proxq + self.quadratic + self.smoothq).collapsed()
+            primal_objective.quadratic = totalq
             dual_objective = primal_objective.conjugate
             dualp = dual_problem(dual_objective,
                                  transform,
@@ -138,18 +139,24 @@ class container(composite):
                 dualopt.composite.coefs[:] = self.dual_minimizer
             history = dualopt.fit(**prox_control)
             dual_minimizer = dualopt.composite.coefs
-            lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
+            # the minimizer over the primal variable for
+            # this value of the dual variable
+            minimizer = -transform.adjoint_map(dual_minimizer)
+            if totalq.linear_term is not None:
+                minimizer = minimizer - totalq.linear_term
+            minimizer = minimizer / totalq.coef
             if prox_control['return_objective_hist']:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz), history
+                return minimizer, history
             else:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz)
+                return minimizer
 
         else:
-            proxq = proxq + self.quadratic + self.smoothq
+            proxq = (proxq + self.quadratic + self.smoothq).collapsed()
             primal = atom.conjugate
-            lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
             if isinstance(transform, afselector):
-                z = x - grad / lipschitz
+                z = np.zeros(transform.input_shape)
+                if proxq.linear_term is not None:
+                    z = z - proxq.linear_term / proxq.coef
                 z[transform.index_obj] = primal.proximal(proxq[transform.index_obj])
                 return z
             else:
-- 
2.43.0


From 7cbd53d501f687cf6a96e7879e42806fecc76989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 093/147] fix: a container of penalties only could not be
 constructed

---
 regreg/problems/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index fad3af4..e26d038 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -39,10 +39,15 @@ class container(composite):
         if len(self.nonsmooth_atoms) == 0 and len(self.smooth_atoms) == 0:
             raise ValueError('must specify some atoms')
 
+        if len(self.smooth_atoms) > 0:
+            shape = self.smooth_atoms[0].shape
+        else:
+            shape = self.nonsmooth_atoms[0].dual[0].input_shape
+
         if len(self.nonsmooth_atoms) == 0:
-            self.nonsmooth_atoms = [zero_nonsmooth(self.smooth_atoms[0].shape)]
+            self.nonsmooth_atoms = [zero_nonsmooth(shape)]
 
-        self.transform, self.atom = stacked_dual(self.smooth_atoms[0].shape, *self.nonsmooth_atoms)
+        self.transform, self.atom = stacked_dual(shape, *self.nonsmooth_atoms)
         self.coefs = np.zeros(self.transform.input_shape)
 
         self.smoothq = identity_quadratic(0,0,0,0)
-- 
2.43.0


From f8226f49de0a9830f5c217a5219afc600cea2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 094/147] fix: the optimal value of a dual problem was computed
 at the primal solution

---
 regreg/problems/dual_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index afefb88..d658823 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -82,7 +82,7 @@ class dual_problem(composite):
         solver = FISTA(self)
         solver.fit(**fit_args)
         if return_optimum:
-            return self.objective(self.primal), self.primal
+            return self.objective(self.coefs), self.primal
         return self.primal
 
     def latexify(self, var=None):
-- 
2.43.0


From fc288dc86b3432977076d6aec1de7f05cf0d7cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 095/147] fix: admm_problem failed for transforms that are not
 square

---
 regreg/problems/admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 4cf141b..bee94e1 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -56,7 +56,7 @@ class admm_problem(object):
 
         self.fit_args = fit_args # for the smooth_sum FISTA run
 
-        assert (self.loss.shape == self.transform.output_shape)
+        assert (self.loss.shape == self.transform.input_shape)
 
     def update_loss_coefs(self):
         """
@@ -68,7 +68,7 @@ class admm_problem(object):
                             self.transform.affine_offset)
         if alpha is None:
             alpha = 0
-        linear_term = self.linear_transform.dot(y - rho * (z - alpha))
+        linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
         self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
                                                        **self.fit_args)
 
-- 
2.43.0


From b72e2d6768e3261a0510abf49e4609667d11bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 096/147] fix: admm_problem ignored the quadratic it was given

---
 regreg/problems/admm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index bee94e1..e83473f 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -69,7 +69,10 @@ class admm_problem(object):
         if alpha is None:
             alpha = 0
         linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
+        quadratic = identity_quadratic(0, 0, linear_term, 0)
+        if self.quadratic is not None:
+            quadratic = quadratic + self.quadratic
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=quadratic,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From a2858c2391e4c4b48e24e60921964be0564acc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 097/147] fix: the prox_control of fit was ignored

---
 regreg/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index 9a3ee42..53f1f11 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -91,7 +91,7 @@ class FISTA(algorithm):
 
         if debug is not None:
             self.debug = debug
-        self.prox_control = {}
+        self.prox_control = prox_control
         self.use_momentum = FISTA
 
         objective_hist = np.zeros(max_its)
@@ -137,7 +137,7 @@ class FISTA(algorithm):
                 lipschitz = self.composite.lipschitz
                 self.step = 1. / lipschitz
                 if self.prox_control != {}:
-                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=prox_control)
+                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=self.prox_control)
                 else:
                     proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0))
                 proposed_smooth = self.composite.smooth_objective(proposed_coefs, mode='func')
@@ -238,7 +238,7 @@ class FISTA(algorithm):
                                                                  self.working_coefs, 
                                                                  working_grad, 
                                                                  0), 
-                                                              prox_control=prox_control)
+                                                              prox_control=self.prox_control)
             else:
                 proposed_coefs = self.composite.proximal_step(sq(1. / self.step, 
                                                                  self.working_coefs, 
-- 
2.43.0


From e7d8ff1c6cc8c268af399009ab62f7ee63e2083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 098/147] fix: the objective of a dual problem left out the
 constant of the conjugate

---
 regreg/problems/dual_problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index d658823..e0bef6d 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -69,8 +69,10 @@ class dual_problem(composite):
     def nonsmooth_objective(self, x, check_feasibility=False):
         out = self.atom.nonsmooth_objective(x, 
                                             check_feasibility=check_feasibility)
-        return out + self.affine_fc.nonsmooth_objective(x, 
-                                                        check_feasibility=check_feasibility)
+        # the quadratic of the conjugate of f carries its constant
+        constant = self.f_conjugate.quadratic.constant_term or 0
+        return out + constant + self.affine_fc.nonsmooth_objective(x, 
+                                                                   check_feasibility=check_feasibility)
 
     def proximal(self, proxq, prox_control=None):
         """
-- 
2.43.0


From 0d634a8ed8e76b1c18ba9255a6f83694e8ae68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 099/147] fix: nesta restarted each of its problems from zero
 and stopped away from the solution

---
 regreg/problems/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 8a11a14..f4c6350 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -205,6 +205,8 @@ def nesta(smooth_atom, proximal_atom, conjugate_atom, epsilon=None,
 
         if idx == 0 and initial_primal is not None:
             problem.coefs[:] = initial_primal
+        elif idx > 0:
+            problem.coefs[:] = primal_coef
 
         primal_coef = problem.solve(quadratic,tol=max(eps,tol))
         updated = problem.objective(primal_coef) + quadratic.objective(primal_coef, 'func')
-- 
2.43.0


From 40d786791237d0fbf1977154f092b36cf1d3d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 100/147] fix: basil changed the initial data given by the
 caller

---
 regreg/paths/basil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 0fc2327..6879367 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -116,7 +116,8 @@ def basil(path_obj,
 
     lagrange_solved, solutions, candidate_set = [np.inf], [], []
 
-    cur_data = initial_data
+    solution, grad_solution = initial_data
+    cur_data = (solution, grad_solution.copy()) # the inner loop updates the gradient
 
     while True:
         
-- 
2.43.0


From 0ba6a9b9fab0637793979a6dc281d402206406b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 101/147] fix: strong_rules never updated unpenalized features

---
 regreg/paths/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index f1ace48..13c005a 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -238,14 +238,16 @@ def strong_rules(path_obj,
     grad_solution = grad_solution.copy()
 
     linear_predictor = path_obj.X.dot(solution)
-    ever_active = path_obj.updated_ever_active([])
 
     dev_solution = path_obj.saturated_loss.smooth_objective(linear_predictor, 'func')
     solutions = [solution.T.copy()]
     dev_explained = [dev_solution]
 
     all_failing = np.zeros(path_obj.group_shape, np.bool)
-    subproblem_set = path_obj.updated_ever_active([])
+    # unpenalized features are part of every subproblem
+    unpen = np.zeros(path_obj.group_shape, np.bool)
+    unpen[path_obj.unpenalized[1]] = True
+    subproblem_set = path_obj.updated_ever_active(unpen)
 
     for lagrange_new, lagrange_cur in zip(lagrange_seq[1:], 
                                           lagrange_seq[:-1]):
-- 
2.43.0


From a8f659243415cb813a570b1322efab497e1e3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 102/147] fix: checking the conditions of unpenalized groups of
 sparse group LASSO paths failed

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 680c16e..8061cbf 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -415,7 +415,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sqlasso.l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sglasso.lasso_weights.mean()) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From 2a876dddaa7561c8b47bc4169104681a73ecbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 103/147] fix: unpenalized groups of sparse group LASSO paths
 were not recognised

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 8061cbf..c76677a 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -111,7 +111,7 @@ class sparse_group_lasso_path(group_lasso_path):
             self._unpen_groups = []
             self._unpen_group_idx = np.zeros(self.group_shape, np.bool)
             for i, g in enumerate(self.penalty._sorted_groupids):
-                unpen_group = (self.penalty.weights[g] == 0 +
+                unpen_group = (self.penalty.weights[g] == 0 and
                                np.any(self.penalty.lasso_weights[self.penalty.groups == g]
                                       == 0))
                 self._unpen_group_idx[i] = unpen_group
-- 
2.43.0


From d95ccfa0fb06ffaa9e54c700e21a533adb255f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 104/147] fix: the ridge term of sparse group LASSO paths
 ignored the Lagrange parameter

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index c76677a..6cd9b37 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -66,7 +66,7 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self._unpenalized_vars = _candidate_bool(self.penalty.groups, 
                                                  unpenalized_groups)
-        self._penalized_vars = np.zeros(self.shape, np.bool)
+        self._penalized_vars = np.ones(self.shape, np.bool)
         self._penalized_vars[self._unpenalized_vars] = 0
 
         if np.any(unpenalized_idx):
-- 
2.43.0


From 1c8425dab52fa9a389405f078ed2c92b4932db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 105/147] fix: subsampled sparse group LASSO paths applied
 l1_alpha twice

---
 regreg/paths/sparse_group_lasso.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 6cd9b37..f3e0a92 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -44,6 +44,9 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self.alpha = alpha
         self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
+        # before mixing, used in subsample
+        self._lasso_weights = self.penalty.lasso_weights
+        self._group_weights = dict(self.penalty.weights)
         l2_weight = 1 - l1_alpha
         for g in self.penalty.weights.keys():
             self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
@@ -151,8 +154,8 @@ class sparse_group_lasso_path(group_lasso_path):
         return self.__class__(subsample_loss,
                               self.X,
                               self.penalty.groups,
-                              self.penalty.lasso_weights,
-                              weights=self.penalty.weights,
+                              self._lasso_weights,
+                              weights=self._group_weights,
                               elastic_net_param=self.elastic_net_param,
                               alpha=self.alpha,
                               l1_alpha=self.l1_alpha)
-- 
2.43.0


From 4c45624ac6a8e4d25cf41dec41f0374a07af7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 106/147] fix: sparse group block paths ignored l1_alpha

---
 regreg/paths/sparse_group_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 4169ce3..ece3dca 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -62,8 +62,8 @@ class sparse_group_common_path(group_lasso_path):
 
         self.alpha = alpha
         self.penalty = sparse_group_block(self.X.input_shape,
-                                          l1_penalty, 
-                                          l2_penalty, 
+                                          self.l1_penalty, 
+                                          self.l2_penalty, 
                                           lagrange=1)
         self.group_shape = (self.penalty.shape[0],)
         self.shape = self.penalty.shape
-- 
2.43.0


From 3e629bf1edf638c53288c9ad96b58ba4964c84a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 107/147] fix: the largest Lagrange value of sparse group LASSO
 paths with unpenalized groups was arbitrary

---
 regreg/paths/sparse_group_lasso.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index f3e0a92..eea929e 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -94,6 +94,9 @@ class sparse_group_lasso_path(group_lasso_path):
                                                  self.linear_predictor) + self.enet_grad(self.solution, 
                                                                                          self._penalized_vars,
                                                                                          1))
+        # the dual norm is infinite unless this gradient is exactly 0,
+        # a solver only makes it small
+        self.grad_solution[self._unpenalized_vars * (self.penalty.lasso_weights == 0)] = 0
 
     @property
     def unpenalized(self):
-- 
2.43.0


From 4dbf08c32e65ede4a334423e1c22bd0caa171d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 108/147] fix: the Hessian of regression losses ignored their
 own coefficient

---
 regreg/smooth/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 92bbd3a..761988a 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -245,11 +245,11 @@ class glm(smooth_atom):
             if not sparse.issparse(X):
                 right_mult = W[:,None] * X
             else:
-                return X.T.dot(sparse.diags(W).dot(X)).toarray()
+                return self.scale(X.T.dot(sparse.diags(W).dot(X)).toarray())
         if not sparse.issparse(X): # assuming it is an ndarray
-            return X.T.dot(right_mult)
+            return self.scale(X.T.dot(right_mult))
         else:
-            return X.T * right_mult
+            return self.scale(X.T * right_mult)
 
     def latexify(self, var=None, idx=''):
         return self.affine_atom.latexify(var=var, idx=idx)
-- 
2.43.0


From 749fb1956759ec825bcef64d73f129fa51174471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 109/147] fix: separable problems from an atom dropped its
 quadratic

---
 regreg/problems/separable.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index fa72b1d..58867fb 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -235,11 +235,13 @@ class separable_problem(simple_problem):
 
     @staticmethod
     def fromatom(separable_atom, smooth_f):
-        return separable_problem(smooth_f, separable_atom.shape, 
-                                 separable_atom.atoms,
-                                 separable_atom.groups,
-                                 False,
-                                 shapes=separable_atom.shapes)
+        problem = separable_problem(smooth_f, separable_atom.shape, 
+                                    separable_atom.atoms,
+                                    separable_atom.groups,
+                                    False,
+                                    shapes=separable_atom.shapes)
+        problem.proximal_atom.quadratic = separable_atom.quadratic
+        return problem
     @property
     def selectors(self):
         return self.proximal_atom.selectors
-- 
2.43.0


From d5aadecbcbcc071b1ad1b6e18021dce99b83d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 110/147] fix: estimators ignored their quadratic

---
 regreg/sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3e5dabc..3252445 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -124,7 +124,7 @@ class base_mixin(object):
         problem = simple_problem(loglike, atom_)
         if self.initial is not None:
             problem.coefs[:] = self.initial
-        self._coefs = problem.solve(**self.solve_args)
+        self._coefs = problem.solve(quadratic=self.quadratic, **self.solve_args)
         return self
 
     def predict(self, X):
-- 
2.43.0


From add2cbb5ed547fd38e34d3f3365aa8359e0582a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 111/147] fix: scores of estimators ignored sample weights or
 wrote them into the response

---
 regreg/sklearn/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3252445..1d1d3cb 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -168,11 +168,13 @@ class base_mixin(object):
         response, case_weights, offset = self._check_y_arg(y)
         predictions = X.dot(self._coefs)
         if offset is not None:
-            predictions -= offset   # this is how offsets are incorporated
-                                    # in regreg
+            predictions = (predictions.T - offset).T   # this is how offsets are incorporated
+                                                       # in regreg
         if sample_weight is not None:
             if case_weights is not None:
-                case_weights *= sample_weight
+                case_weights = case_weights * sample_weight
+            else:
+                case_weights = sample_weight
         return self._saturated_score(predictions, response, case_weights=case_weights)
 
     def _construct_atom(self):
-- 
2.43.0


From 5359ad073bf11c7c2565ba3ba5eb963a8305eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 112/147] fix: estimators with offset or weights lost the shape
 of a single case

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 1d1d3cb..016c862 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -215,7 +215,9 @@ class base_mixin(object):
                 offset = None
 
             if neg_index < 0:
-                response = np.squeeze(y[:,:neg_index])
+                response = y[:,:neg_index]
+                if response.shape[1] == 1:
+                    response = response[:,0]
 
         return response, case_weights, offset
 
-- 
2.43.0


From fbd492514793884ccdd0395e379362868b6403db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 113/147] fix: the R2 of binomial estimators failed with
 numbers of trials

---
 regreg/sklearn/cloglog.py  | 4 ++--
 regreg/sklearn/logistic.py | 4 ++--
 regreg/sklearn/probit.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 3ff4c35..76f0bb6 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -67,9 +67,9 @@ if have_sklearn:
                 return -2 * loss(predictions)
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 cloglog_0 = gumbel_r.ppf(pi_0)
-                SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
+                SST = 2 * loss(cloglog_0 * np.ones(successes.shape)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 617f155..2994501 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -65,9 +65,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 logit_0 = np.log(pi_0 / (1 - pi_0))
-                SST = 2 * loss(logit_0 * np.ones_like(response)) # X: correct for logistic?
+                SST = 2 * loss(logit_0 * np.ones(successes.shape)) # X: correct for logistic?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index c5b1ba8..6f0230d 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -66,9 +66,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 probit_0 = normal_dbn.ppf(pi_0)
-                SST = 2 * loss(probit_0 * np.ones_like(response)) # X: correct for probit?
+                SST = 2 * loss(probit_0 * np.ones(successes.shape)) # X: correct for probit?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-- 
2.43.0


From f5a7437883f40cfdc832d9e8c98401c1cfd176f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 114/147] fix: the mean deviance of the cloglog estimator was
 the total deviance

---
 regreg/sklearn/cloglog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 76f0bb6..2febc8e 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -64,7 +64,7 @@ if have_sklearn:
             if self.score_method == 'deviance':
                 return -2 * loss(predictions)
             elif self.score_method == 'mean_deviance':
-                return -2 * loss(predictions)
+                return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
-- 
2.43.0


From 77e64af86d79f703d653b14254fa9cca9a4f3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 115/147] fix: the R2 of the cloglog estimator used the wrong
 link for its null model

---
 regreg/sklearn/cloglog.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 2febc8e..ddf5334 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -1,5 +1,4 @@
 import numpy as np
-from scipy.stats import gumbel_r
 
 have_sklearn = True
 try:
@@ -68,7 +67,7 @@ if have_sklearn:
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
-                cloglog_0 = gumbel_r.ppf(pi_0)
+                cloglog_0 = np.log(-np.log(1 - pi_0))
                 SST = 2 * loss(cloglog_0 * np.ones(successes.shape)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-- 
2.43.0


From eb79211bfcab0f2e803d117215b31323f225a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 116/147] fix: the R2 of the Cox estimator compared twice the
 deviance with the null deviance

---
 regreg/sklearn/cox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/cox.py b/regreg/sklearn/cox.py
index ccc1427..1306534 100644
--- a/regreg/sklearn/cox.py
+++ b/regreg/sklearn/cox.py
@@ -54,7 +54,7 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                SST = loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
+                SST = 2 * loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
                 return 1 - SSE / SST
             elif self.score_method == 'C-index':
                 return np.nan
-- 
2.43.0


From b206406c584f150954e28eeb3137c5e178be9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 117/147] fix: the accuracy of classifiers compared linear
 predictors with labels

---
 regreg/sklearn/cloglog.py     | 2 +-
 regreg/sklearn/logistic.py    | 2 +-
 regreg/sklearn/multinomial.py | 2 +-
 regreg/sklearn/probit.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index ddf5334..b8e7107 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -118,7 +118,7 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean((predictions > 0) == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 2994501..570edae 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -117,7 +117,7 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean((predictions > 0) == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index fd19257..0560f0d 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -96,7 +96,7 @@ if have_sklearn:
             successes = response
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean(np.argmax(predictions, 1) == np.argmax(successes, 1))
             return np.nan
 
         def predict(self, X):
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index 6f0230d..5e21407 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -118,7 +118,7 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean((predictions > 0) == successes)
             return np.nan
 
         def predict_proba(self, X):
-- 
2.43.0


From a7d8a66f5d34233f0b977ccea7188faebf369aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 118/147] fix: the R2 and accuracy of the multinomial estimator
 failed or compared the wrong quantities

---
 regreg/sklearn/multinomial.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 0560f0d..4ec8157 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -54,13 +54,12 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = np.mean(response, 0)
+                pi_0 = np.sum(response, 0) / np.sum(response)
                 multinom_0 = np.log(pi_0)
-                SST = 2 * loss(np.multiply.outer(multinom_0,  np.ones_like(response)))
+                SST = 2 * loss(multinom_0 * np.ones_like(response))
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-                labels = predictions > 0
-                return np.mean(labels == response)
+                return np.mean(np.argmax(predictions, 1) == np.argmax(response, 1))
             else:
                 return np.nan
 
-- 
2.43.0


From 9391afbf68f31633b5afdb8cfae9e223c6924d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 119/147] fix: multinomial probabilities were normalized along
 the wrong axis

---
 regreg/sklearn/multinomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 4ec8157..e38fe58 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -136,8 +136,8 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / exp_lin.sum(1)
+            exp_lin = np.exp(linpred - linpred.max(1)[:,None])
+            return exp_lin / exp_lin.sum(1)[:,None]
 
     class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
         pass
-- 
2.43.0


From ca85a69efb000d992263370a7ce3fb6b7c1b413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 120/147] fix: logistic probabilities were nan for large linear
 predictors

---
 regreg/sklearn/logistic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 570edae..d5b11b8 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -138,8 +138,7 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / (1 + exp_lin)
+            return 1 / (1 + np.exp(-linpred))
 
     class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
         pass
-- 
2.43.0


From 69ada7fe6c816b12e0c5140a7f9e1f09d0786716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 121/147] fix: cloglog labels did not agree with their
 probabilities

---
 regreg/sklearn/cloglog.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index b8e7107..e785af9 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -71,7 +71,7 @@ if have_sklearn:
                 SST = 2 * loss(cloglog_0 * np.ones(successes.shape)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-                labels = predictions > 0
+                labels = predictions > np.log(np.log(2)) # probability above 1/2
                 return np.mean(labels == response)
             else:
                 return np.nan
@@ -118,9 +118,29 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean((predictions > 0) == successes)
+                labels = predictions > np.log(np.log(2)) # probability above 1/2
+                return np.mean(labels == successes)
             return np.nan
 
+        def predict(self, X):
+            """
+            Predict new labels in classification setting.
+
+            Parameters
+            ----------
+
+            X : np.ndarray((n, p))
+                Feature matrix.
+
+            Returns
+            -------
+
+            labels : np.ndarray(n)
+                Predictions from classification model.
+
+            """
+            return X.dot(self._coefs) > np.log(np.log(2)) # probability above 1/2
+
         def predict_proba(self, X):
             """
             Predict new probabilities in classification setting.
-- 
2.43.0


From 41793a84b2e6c9d995b778817cc6eb986d0330ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 122/147] fix: the elastic net of estimators replaced the
 quadratic of the penalty

---
 regreg/sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 016c862..bf28870 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -371,7 +371,7 @@ class lagrange_mixin(base_mixin):
             # reweight penalty and add elastic net
             ridge_term = identity_quadratic(self.enet_alpha * atom_.lagrange, 0, 0, 0)
             atom_.lagrange *= (1 - self.enet_alpha)
-            atom_.quadratic = ridge_term
+            atom_.quadratic = atom_.quadratic + ridge_term
         return atom_
             
 class classifier_mixin(base_mixin):
-- 
2.43.0


From a1cac54eab34e7c5bcdce6664d2d9e1ad5cfb63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 123/147] fix: Lagrange form classifiers were not in Lagrange
 form

---
 regreg/sklearn/base.py        | 17 ++++++++---------
 regreg/sklearn/cloglog.py     |  2 +-
 regreg/sklearn/logistic.py    |  2 +-
 regreg/sklearn/multinomial.py |  2 +-
 regreg/sklearn/probit.py      |  2 +-
 5 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index bf28870..086c21e 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -512,15 +512,14 @@ class classifier_lagrange_mixin(classifier_mixin, lagrange_mixin):
 
         """
 
-        lagrange_mixin(self, 
-                       atom_constructor, 
-                       atom_params, 
-                       case_weights=case_weights,
-                       offset=offset,
-                       enet_alpha=enet_alpha,
-                       coef=coef, 
-                       score_method=score_method,
-                       initial=initial)
+        lagrange_mixin.__init__(self, 
+                                atom_constructor, 
+                                atom_params, 
+                                case_weights=case_weights,
+                                enet_alpha=enet_alpha,
+                                coef=coef, 
+                                score_method=score_method,
+                                initial=initial)
                        
 
 class survival_mixin(base_mixin):
diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index e785af9..30a9b54 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -161,6 +161,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return 1 - np.exp(-np.exp(linpred))
 
-    class sklearn_cloglog_classifier_lagrange(sklearn_cloglog_classifier):
+    class sklearn_cloglog_classifier_lagrange(sklearn_classifier_lagrange, sklearn_cloglog_classifier):
         pass
 
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index d5b11b8..839a05b 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -140,6 +140,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return 1 / (1 + np.exp(-linpred))
 
-    class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
+    class sklearn_logistic_classifier_lagrange(sklearn_classifier_lagrange, sklearn_logistic_classifier):
         pass
 
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index e38fe58..777c9cb 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -139,6 +139,6 @@ if have_sklearn:
             exp_lin = np.exp(linpred - linpred.max(1)[:,None])
             return exp_lin / exp_lin.sum(1)[:,None]
 
-    class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
+    class sklearn_multinomial_classifier_lagrange(sklearn_classifier_lagrange, sklearn_multinomial_classifier):
         pass
 
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index 5e21407..ee7c0da 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -141,6 +141,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return normal_dbn.cdf(linpred)
 
-    class sklearn_probit_classifier_lagrange(sklearn_probit_classifier):
+    class sklearn_probit_classifier_lagrange(sklearn_classifier_lagrange, sklearn_probit_classifier):
         pass
 
-- 
2.43.0


From c20d4f2c04ec2e5d7774dff77b7b9c1594b34b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 124/147] fix: multinomial estimators failed with an offset

---
 regreg/sklearn/multinomial.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 777c9cb..7bdf373 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -27,6 +27,10 @@ if have_sklearn:
 
             successes = response
 
+            if offset_ is not None:
+                # one offset per case, the same for all categories
+                offset_ = np.multiply.outer(offset_, np.ones(successes.shape[1]))
+
             return mglm.multinomial(X, 
                                     successes,
                                     case_weights=case_weights_,
@@ -80,6 +84,10 @@ if have_sklearn:
 
             successes = response
 
+            if offset_ is not None:
+                # one offset per case, the same for all categories
+                offset_ = np.multiply.outer(offset_, np.ones(successes.shape[1]))
+
             return mglm.multinomial(X, 
                                     successes,
                                     case_weights=case_weights_,
-- 
2.43.0


From 517c703465bc2de0187043cf511073232fc84c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 125/147] fix: the null solution of Lagrange form estimators
 was nan

---
 regreg/sklearn/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 086c21e..7e6c6e8 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -358,10 +358,12 @@ class lagrange_mixin(base_mixin):
         return self
 
     def _fit_null_soln(self, loglike, atom):
-        old_lagrange = atom.lagrange
-        atom.lagrange = np.inf
+        # penalized features are zero for any large Lagrange parameter;
+        # with np.inf the penalty would be np.inf * 0 there
+        null_grad = loglike.smooth_objective(np.zeros(loglike.shape), 'grad')
+        atom.lagrange = 1.e10 * max(1, np.linalg.norm(null_grad))
         problem = simple_problem(loglike, atom)
-        null_soln = problem.solve()
+        null_soln = problem.solve(**self.solve_args)
         null_grad = loglike.smooth_objective(null_soln, 'grad')
         return null_grad
 
-- 
2.43.0


From b1cd09aa8da7480a7aa0d23b8194c36837c629ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 126/147] fix: cross-validation of multinomial paths failed

---
 regreg/paths/cross_validate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/paths/cross_validate.py b/regreg/paths/cross_validate.py
index c8cfb13..eb3df87 100644
--- a/regreg/paths/cross_validate.py
+++ b/regreg/paths/cross_validate.py
@@ -40,6 +40,8 @@ def cross_validate(path_obj,
     # Compute paths for all folds 
 
     response = path_obj.saturated_loss.data
+    if isinstance(response, tuple): # counts and trials of a multinomial
+        response = response[0]
     nsample = response.shape[0]
     have_sklearn = False
     if have_sklearn:
@@ -130,6 +132,8 @@ def cross_validate_alt(path_obj,
     # Compute paths for all folds 
 
     response = path_obj.saturated_loss.data
+    if isinstance(response, tuple): # counts and trials of a multinomial
+        response = response[0]
     nsample = response.shape[0]
     have_sklearn = False
     if have_sklearn:
-- 
2.43.0


From 3eadda99f8bd9cefb1b2c466656da52c733ef7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 127/147] fix: warm_start wrote its tolerance and step into the
 solver arguments of the caller

---
 regreg/paths/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 13c005a..3bec4be 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -406,9 +406,9 @@ def warm_start(path_obj,
 
         problem = simple_problem(total_loss, penalty)
         problem.coefs[:] = solution
-        solve_args['tol'] = inner_tol
-        solve_args['start_step'] = path_obj.final_step
-        solution = problem.solve(**solve_args)
+        solution = problem.solve(**dict(solve_args,
+                                        tol=inner_tol,
+                                        start_step=path_obj.final_step))
 
         objective.append(loss.smooth_objective(solution, mode='func'))
         solutions.append(solution.T.copy())
-- 
2.43.0


From b85d217a9ca266c3e737dc930d777174b8f1d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 128/147] fix: the first solution of strong rules was the
 initial one whatever the Lagrange value

---
 regreg/paths/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 3bec4be..46b74f4 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -240,7 +240,7 @@ def strong_rules(path_obj,
     linear_predictor = path_obj.X.dot(solution)
 
     dev_solution = path_obj.saturated_loss.smooth_objective(linear_predictor, 'func')
-    solutions = [solution.T.copy()]
+    solutions = []
     dev_explained = [dev_solution]
 
     all_failing = np.zeros(path_obj.group_shape, np.bool)
@@ -249,8 +249,9 @@ def strong_rules(path_obj,
     unpen[path_obj.unpenalized[1]] = True
     subproblem_set = path_obj.updated_ever_active(unpen)
 
-    for lagrange_new, lagrange_cur in zip(lagrange_seq[1:], 
-                                          lagrange_seq[:-1]):
+    # the initial data need not solve the problem at the first value
+    for lagrange_new, lagrange_cur in zip(lagrange_seq,
+                                          np.hstack([lagrange_seq[:1], lagrange_seq[:-1]])):
         tol = inner_tol
         num_tries = 0
         debug = False
-- 
2.43.0


From 2c5618fe463a7a737d8b1d755031ab9c9ddcda39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 129/147] fix: paths started from a nonzero solution kept its
 other coefficients

---
 regreg/paths/__init__.py | 2 ++
 regreg/paths/basil.py    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 46b74f4..55dc701 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -247,6 +247,8 @@ def strong_rules(path_obj,
     # unpenalized features are part of every subproblem
     unpen = np.zeros(path_obj.group_shape, np.bool)
     unpen[path_obj.unpenalized[1]] = True
+    # so are those the initial solution uses
+    unpen[path_obj.active_set(solution)] = True
     subproblem_set = path_obj.updated_ever_active(unpen)
 
     # the initial data need not solve the problem at the first value
diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 6879367..9e89a17 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -35,6 +35,7 @@ def basil_inner_loop(path_obj,
     linear_predictor = path_obj.X.dot(solution)
     unpen = np.zeros(path_obj.group_shape, np.bool)
     unpen[path_obj.unpenalized[1]] = True
+    unpen[path_obj.active_set(solution)] = True # used by the initial solution
     ever_active = list(path_obj.updated_ever_active(unpen)) # unpenalized groups
 
     solutions = []
-- 
2.43.0


From 2f47e680ed4f6064ca12c39440806b7c40db0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 130/147] fix: terms of the sparse group block norm used the l1
 weight for the l2 part

---
 regreg/atoms/sparse_group_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index a1d8e0c..40166c2 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -140,7 +140,7 @@ class sparse_group_block(l1_l2):
         
         """
         terms = (np.fabs(arg).sum(1) * self.l1_weight + 
-                 np.sqrt((arg**2).sum(1)) * self.l1_weight)
+                 np.sqrt((arg**2).sum(1)) * self.l2_weight)
         return terms
 
 class sparse_group_block_dual(sparse_group_block):
-- 
2.43.0


From 21c2924135c88b435d7c49fd3b01bd963eb058ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 131/147] fix: the active check of group paths never accepted
 unpenalized groups alone

---
 regreg/paths/group_lasso.py        | 3 ++-
 regreg/paths/sparse_group_lasso.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/group_lasso.py b/regreg/paths/group_lasso.py
index 140c069..5483754 100644
--- a/regreg/paths/group_lasso.py
+++ b/regreg/paths/group_lasso.py
@@ -393,7 +393,8 @@ def _check_KKT(penalty,
         if active:
             active_results[i] = (np.linalg.norm(solution[group] * lagrange * w / np.linalg.norm(solution[group]) + grad[group]) > tol) * ACTIVE
         elif unpenalized:
-            active_results[i] = (np.linalg.norm(grad[group]) > tol * np.mean(penalty._weight_array)) * UNPENALIZED
+            scale = np.mean(penalty._weight_array) or 1. # all groups may be unpenalized
+            active_results[i] = (np.linalg.norm(grad[group]) > tol * scale) * UNPENALIZED
         else:
             inactive_results[i] = np.linalg.norm(grad[group]) / (lagrange * w) 
     # rank inactive groups
diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index eea929e..5926200 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -421,7 +421,8 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sglasso.lasso_weights.mean()) * UNPENALIZED
+            scale = sglasso.lasso_weights.mean() or 1. # there may be no l1 weights
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * scale) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From 07b40791d63207c4350a22aa58fe08dabb1ce45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 132/147] fix: the quasi-Newton solver failed when the solution
 is zero

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index ac4fd46..70bac92 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -341,7 +341,7 @@ class quasi_newton(object):
             Next gradient.
         """
         return (np.fabs(old_soln - new_soln).max()
-                < 1.e-6 * np.linalg.norm(new_soln))
+                <= 1.e-6 * np.linalg.norm(new_soln))
 
     def backtrack(self, 
                   direction,
-- 
2.43.0


From dc7439eeac5b3111f8967a0178f105d7ec000f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 133/147] fix: the quasi-Newton Hessian was nan after a step
 without curvature

---
 regreg/problems/newton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 70bac92..f7c6aac 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -130,6 +130,10 @@ class quasi_newton(object):
         if (y.dot(s) < -1e-5):
             raise ValueError('failure in BFGS update -- dot product is negative')
 
+        if y.dot(s) <= 0:
+            # no curvature along s, the update is not defined
+            return
+
         # update is done in place
         # note that this means self.quadratic_problem.Q is also updated!
         
-- 
2.43.0


From f7069fc0470db82272522306ccbb2ac6b9cc16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 134/147] fix: the quasi-Newton solver ignored the quadratic of
 its loss

---
 regreg/problems/newton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index f7c6aac..d8d5ea4 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -248,7 +248,8 @@ class quasi_newton(object):
         # warm start the subproblem
         self.quadratic_problem.coefs[:] = self.coefs 
 
-        quad_soln = self.quadratic_problem.solve(quad + self.quadratic,
+        quad_soln = self.quadratic_problem.solve(quad + self.quadratic +
+                                                 self.smooth_atom.quadratic,
                                                  **fit_args)
         direction = quad_soln - self.coefs
         return direction, grad, quad_soln 
-- 
2.43.0


From c45b1ade53bdb60e80891ce6d5c0d4d6055f30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 135/147] fix: the objective of the quasi-Newton solver failed
 or was infinite for some penalties

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index d8d5ea4..09e333b 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -89,7 +89,7 @@ class quasi_newton(object):
 
         """
         return (self.smooth_objective(coefs, 'func') +
-                self.nonsmooth_objective(coefs, 'func'))
+                self.nonsmooth_objective(coefs))
 
     def update_hessian(self,
                        old_soln,
-- 
2.43.0


From c077ea9b917c1aa56e988fe05f652bd50c61e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 136/147] fix: the quasi-Newton line search accepted steps that
 increase the objective

---
 regreg/problems/newton.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 09e333b..246f663 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -394,4 +394,12 @@ class quasi_newton(object):
                             disp=False,
                             maxiter=maxiter,
                             maxfun=maxfun)
-        return step, restriction(step)
+        val = restriction(step)
+
+        # the search stops after a few evaluations,
+        # which need not have found any descent
+        start_val = restriction(0.)
+        while val > start_val and np.fabs(step) > 1.e-10:
+            step = min(np.fabs(step) / 2, 1.)
+            val = restriction(step)
+        return step, val
-- 
2.43.0


From 240cf233100f38719ae946ec0cd9e20d2a611aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 137/147] fix: a failed evaluation of a numerical conjugate
 changed its quadratic

---
 regreg/problems/conjugate.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/regreg/problems/conjugate.py b/regreg/problems/conjugate.py
index e9133d8..0a84bd4 100644
--- a/regreg/problems/conjugate.py
+++ b/regreg/problems/conjugate.py
@@ -61,11 +61,13 @@ class conjugate(composite):
         old_lin = self.conjugate_quadratic.linear_term
         new_lin = -v if old_lin is None else old_lin - v
         self.conjugate_quadratic.linear_term = new_lin
-        if isinstance(self.atom, smooth_atom):
-            minimizer = self.problem.solve(self.conjugate_quadratic, max_its=5000, **self.fit_args)
-        else: # it better have a proximal method!
-            minimizer = self.atom.proximal(self.conjugate_quadratic)
-        self.conjugate_quadratic.linear_term = old_lin
+        try:
+            if isinstance(self.atom, smooth_atom):
+                minimizer = self.problem.solve(self.conjugate_quadratic, max_its=5000, **self.fit_args)
+            else: # it better have a proximal method!
+                minimizer = self.atom.proximal(self.conjugate_quadratic)
+        finally:
+            self.conjugate_quadratic.linear_term = old_lin
 
         # retain a reference
         self.argmin = minimizer
-- 
2.43.0


From ae82870bdb710017a2c0c35af8321cf4b470cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 138/147] fix: numerical conjugates of glms omitted their
 quadratic

---
 regreg/problems/conjugate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/conjugate.py b/regreg/problems/conjugate.py
index 0a84bd4..b06a803 100644
--- a/regreg/problems/conjugate.py
+++ b/regreg/problems/conjugate.py
@@ -73,13 +73,13 @@ class conjugate(composite):
         self.argmin = minimizer
 
         if mode == 'both':
-            val = self.atom.objective(minimizer)
+            val = composite.objective(self.atom, minimizer) # glm.objective omits the quadratic
             if not self.negate:
                 return -val - self.conjugate_quadratic.objective(minimizer, mode='func') + (v * minimizer).sum(), minimizer
             else:
                 return -val - self.conjugate_quadratic.objective(minimizer, mode='func') + (v * minimizer).sum(), -minimizer
         elif mode == 'func':
-            val = self.atom.objective(minimizer)
+            val = composite.objective(self.atom, minimizer) # glm.objective omits the quadratic
             return -val - self.conjugate_quadratic.objective(minimizer, mode='func') + (v * minimizer).sum()
         elif mode == 'grad':
             return -minimizer if self.negate else minimizer
-- 
2.43.0


From 1fe9e1026af34e0d926e27e9b68013bcffc9d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 139/147] fix: the optimal value of solved glms omitted the
 quadratic

---
 regreg/problems/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 93f0b03..77f98e9 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -216,7 +216,7 @@ class smooth(composite):
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         self.solver = FISTA(self)
         self.solver.fit(**fit_args)
-        optimum = self.objective(self.coefs)
+        optimum = composite.objective(self, self.coefs) # glm.objective omits the quadratic
         self.quadratic = oldq
 
         if return_optimum:
-- 
2.43.0


From ddd32f58fb349fd2633f29a8c849ce4472a68dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 140/147] fix: a failed solve of a smooth function changed its
 quadratic

---
 regreg/problems/composite.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 77f98e9..c57fa00 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -214,10 +214,12 @@ class smooth(composite):
         if quadratic is None:
             quadratic = sq(0, 0, 0, 0)
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
-        self.solver = FISTA(self)
-        self.solver.fit(**fit_args)
-        optimum = composite.objective(self, self.coefs) # glm.objective omits the quadratic
-        self.quadratic = oldq
+        try:
+            self.solver = FISTA(self)
+            self.solver.fit(**fit_args)
+            optimum = composite.objective(self, self.coefs) # glm.objective omits the quadratic
+        finally:
+            self.quadratic = oldq
 
         if return_optimum:
             return optimum, self.coefs
-- 
2.43.0


From 7f197ebe229462129c9a38c1d0d5197ace4c4843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 141/147] fix: penalties that differ in shape, weights, groups
 or bound compared equal

---
 regreg/atoms/block_norms.py        |  4 ++++
 regreg/atoms/group_lasso.py        | 10 ++++++----
 regreg/atoms/seminorms.py          |  6 +++---
 regreg/atoms/slope.py              |  3 +++
 regreg/atoms/sparse_group_block.py |  5 +++++
 regreg/atoms/sparse_group_lasso.py |  4 ++++
 regreg/atoms/weighted_atoms.py     |  2 +-
 7 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index c9e4b01..9d1bd84 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -52,6 +52,10 @@ class block_sum(seminorms.seminorm):
                              offset=None,
                              quadratic=None)
 
+    def __eq__(self, other):
+        return (seminorms.seminorm.__eq__(self, other)
+                and self.atom.__class__ == other.atom.__class__)
+
     def __copy__(self):
         args = (copy(self.shape),)
         if self.__class__ in [block_sum, block_max]:
diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 0710a19..d7fada3 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -90,10 +90,9 @@ class group_lasso(seminorm):
         
     def __eq__(self, other):
         if self.__class__ == other.__class__:
-            return (self.shape == other.shape and 
-                    np.all(self.groups == other.groups)
-                    and (self.weights == other.weights)
-                    and self.lagrange == other.lagrange)
+            return (seminorm.__eq__(self, other)
+                    and np.array_equal(self.groups, other.groups)
+                    and self.weights == other.weights)
         return False
 
     def __copy__(self):
@@ -463,6 +462,9 @@ class group_lasso_cone(cone):
                                         quadratic=None,
                                         initial=None)
 
+    def __eq__(self, other):
+        return cone.__eq__(self, other) and self.snorm == other.snorm
+
     def __copy__(self):
         return self.__class__(copy(self.groups),
                               weights=copy(self.weights),
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 3882baa..6b98e24 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -128,9 +128,9 @@ class seminorm(atom):
 
     def __eq__(self, other):
         if self.__class__ == other.__class__:
-            if self.bound is not None:
-                return self.bound == other.bound
-            return self.lagrange == other.lagrange
+            return (self.shape == other.shape
+                    and self.bound == other.bound
+                    and self.lagrange == other.lagrange)
         return False
 
     def __copy__(self):
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 7b0a7a4..4f704b4 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -88,6 +88,9 @@ class slope(seminorm):
     def bound_prox(self, x, bound=None):
          raise NotImplementedError
 
+    def __eq__(self, other):
+        return seminorm.__eq__(self, other) and np.array_equal(self.weights, other.weights)
+
     def __copy__(self):
          return self.__class__(self.weights.copy(),
                                quadratic=self.quadratic,
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 40166c2..bc0d650 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -110,6 +110,11 @@ class sparse_group_block(l1_l2):
         return self._conjugate
     conjugate = property(get_conjugate)
 
+    def __eq__(self, other):
+        return (l1_l2.__eq__(self, other)
+                and self.l1_weight == other.l1_weight
+                and self.l2_weight == other.l2_weight)
+
     def __copy__(self):
          return self.__class__(self.shape,
                                self.l1_weight,
diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 3b57c3b..574a4fb 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -116,6 +116,10 @@ class sparse_group_lasso(group_lasso, seminorm):
     def bound_prox(self, x, bound=None):
         raise NotImplementedError
 
+    def __eq__(self, other):
+        return (group_lasso.__eq__(self, other)
+                and np.array_equal(self.lasso_weights, other.lasso_weights))
+
     def __copy__(self):
          return self.__class__(self.groups.copy(),
                                self.lasso_weights.copy(),
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index bd409e7..5429baa 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -44,7 +44,7 @@ class seminorm(unweighted_seminorm):
 
     def __eq__(self, other):
         if self.__class__ == other.__class__:
-            weights_equal = np.all(np.equal(self.weights, other.weights))
+            weights_equal = np.array_equal(self.weights, other.weights)
             if self.bound is not None:
                 return self.bound == other.bound and weights_equal
             return self.lagrange == other.lagrange and weights_equal
-- 
2.43.0


From e64b397171ed17fd3b3d3b8abcdae0efca63eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 142/147] fix: the KKT check of group lasso penalties always
 failed

---
 regreg/atoms/group_lasso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index d7fada3..f7ba93d 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -786,12 +786,12 @@ def check_KKT(glasso,
     """
 
     failing = False
-    norm_soln = np.linalg.norm(solutionn)
+    norm_soln = np.linalg.norm(solution)
     active = glasso.terms(solution) > tol * norm_soln
     inactive_groups = np.nonzero(~active)[0]
-    active_groups = np.nozero(active)[0]
+    active_groups = np.nonzero(active)[0]
     for g in active_groups:
-        group = glasso.groups == g
+        group = glasso._group_array == g
         subgrad_g = -grad[group]
         soln_g = solution[group]
         if np.linalg.norm(subgrad_g) < glasso.lagrange * glasso._weight_array[g] * (1 - tol):
@@ -799,7 +799,7 @@ def check_KKT(glasso,
         if np.linalg.norm(subgrad_g / np.linalg.norm(subgrad_g) - soln_g / np.linalg.norm(soln_g)) > tol:
             failing = True
     for g in inactive_groups:
-        group = glasso.groups == g
+        group = glasso._group_array == g
         subgrad_g = -grad[group]
         if np.linalg.norm(subgrad_g) > glasso.lagrange * glasso._weight_array[g] * (1 + tol):
             failing = True
-- 
2.43.0


From 60f1bb7c30f511e3a35826ec2e2277dd39bf098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 143/147] fix: the terms of weighted sup norms were those of
 the inverse weights

---
 regreg/atoms/weighted_atoms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 5429baa..aaa16ca 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -200,7 +200,7 @@ class l1norm(seminorm):
 
         """
         arg = np.asarray(arg)
-        return np.fabs(arg) * self.weights
+        return np.where(arg == 0, 0, np.fabs(arg) * self.weights)
 
 @objective_doc_templater()
 class supnorm(seminorm):
@@ -267,9 +267,11 @@ class supnorm(seminorm):
 
         """
         arg = np.asarray(arg)
-        v = np.fabs(arg) / self.weights
+        finite = np.isfinite(self.weights)
+        v = np.zeros(arg.shape)
+        v[finite] = np.fabs(arg[finite]) * self.weights[finite]
         if check_feasibility:
-            v[self.weights == 0] = np.where(np.fabs(arg[self.weights == 0]) != 0, np.inf, 0)
+            v[~finite] = np.where(arg[~finite] != 0, np.inf, 0)
         return v
 
 conjugate_weighted_pairs = {}
-- 
2.43.0


From 000906ee510be3e6444e93add6f31e01405e5733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 144/147] fix: the KKT check of group lasso penalties accepted
 too large gradients of active groups

---
 regreg/atoms/group_lasso.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index f7ba93d..2e9e3b6 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -794,7 +794,8 @@ def check_KKT(glasso,
         group = glasso._group_array == g
         subgrad_g = -grad[group]
         soln_g = solution[group]
-        if np.linalg.norm(subgrad_g) < glasso.lagrange * glasso._weight_array[g] * (1 - tol):
+        bound_g = glasso.lagrange * glasso._weight_array[g]
+        if np.fabs(np.linalg.norm(subgrad_g) - bound_g) > bound_g * tol:
             failing = True
         if np.linalg.norm(subgrad_g / np.linalg.norm(subgrad_g) - soln_g / np.linalg.norm(soln_g)) > tol:
             failing = True
-- 
2.43.0


From 4ce4c09025a17f4128d55d4d2a4b9b8c5bd09ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 145/147] fix: copies of factored matrices lost their offset

---
 regreg/affine/factored_matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d01e6f5..2a15820 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -6,6 +6,8 @@ problems.
 """
 from __future__ import print_function, division, absolute_import
 
+from copy import copy
+
 import numpy as np
 
 from ..affine import affine_sum, astransform, adjoint
@@ -52,7 +54,8 @@ class factored_matrix(object):
             self.X = astransform(linear_operator)
 
     def copy(self):
-        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()])
+        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()],
+                               affine_offset=copy(self.affine_offset))
 
     def _setX(self,transform):
         transform = astransform(transform)
-- 
2.43.0


From 9459df32223eed89a3d659dcfc1c5dae4706f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 146/147] fix: the adjoint of a selector dropped repeated
 indices

---
 regreg/affine/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index a1af93c..2aea491 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -335,7 +335,7 @@ class selector(linear_transform):
         v = self.affine_transform.adjoint_map(u)
         if self.reshape is not None:
             v = v.reshape(output[self.index_obj].shape)
-        output[self.index_obj] = v
+        np.add.at(output, self.index_obj, v) # an index may be repeated
         return output
 
 class scaler(linear_transform):
-- 
2.43.0


From ba04d0bd28d49d33172a3b62c52975509361818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 147/147] fix: containers ignored changes of the parameters of
 their penalties

---
 regreg/problems/container.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index e26d038..5dc27bf 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -47,12 +47,26 @@ class container(composite):
         if len(self.nonsmooth_atoms) == 0:
             self.nonsmooth_atoms = [zero_nonsmooth(shape)]
 
-        self.transform, self.atom = stacked_dual(shape, *self.nonsmooth_atoms)
+        self._shape = shape
         self.coefs = np.zeros(self.transform.input_shape)
 
-        self.smoothq = identity_quadratic(0,0,0,0)
+    # the parameters of the atoms may change after construction,
+    # so these are read from the atoms when they are needed
+
+    @property
+    def transform(self):
+        return stacked_dual(self._shape, *self.nonsmooth_atoms)[0]
+
+    @property
+    def atom(self):
+        return stacked_dual(self._shape, *self.nonsmooth_atoms)[1]
+
+    @property
+    def smoothq(self):
+        smoothq = identity_quadratic(0,0,0,0)
         for atom in self.smooth_atoms:
-            self.smoothq += atom.quadratic
+            smoothq += atom.quadratic
+        return smoothq
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
         """
@@ -95,7 +109,7 @@ class container(composite):
         The proximal function for the primal problem
         """
 
-        transform, atom = self.transform, self.atom
+        transform, atom = stacked_dual(self._shape, *self.nonsmooth_atoms)
 
         if not (isinstance(transform, afidentity) or
                 isinstance(transform, afselector)):
-- 
2.43.0

