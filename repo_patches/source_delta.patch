From fe3baa2ff9a470ed19a6537b0da46e6e5836023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 01/23] fix: bad Broyden update is applied and satisfies the
 secant equation

BB.update computed a difference but never added it to the matrix, and the
difference did not satisfy B+ s = y.
---
 fides/hessian_approximation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..6acfbb4 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -244,13 +244,16 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
+    def _compute_update(self, s: np.ndarray, y: np.ndarray):
         b = y.T.dot(s)
         z = y - self._hess.dot(s)
-        if b <= 0:
+        # (s - H*y)*y.T/(y.T*y) for the inverse H, via Sherman-Morrison
+        u = self._hess.T.dot(y)
+        c = u.T.dot(s)
+        if b <= 0 or c == 0:
             self._diff = np.zeros_like(self._hess)
         else:
-            self._diff = np.outer(z, s.T) / b
+            self._diff = np.outer(z, u.T) / c
 
 
 class HybridApproximation(HessianApproximation):
-- 
2.43.0


From adee1483f1299505d09fde8c96df4c0cd8bed8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 02/23] fix: SR1 update is skipped instead of 0/0 when y == B s

---
 fides/hessian_approximation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 6acfbb4..07c635b 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -212,8 +212,9 @@ class SR1(IterativeHessianApproximation):
         z = y - self._hess.dot(s)
         d = z.T.dot(s)
 
-        # [NocedalWright2006] (6.26) reject if update degenerate
-        if np.abs(d) >= np.sqrt(np.spacing(1)) * norm(s) * norm(z):
+        # [NocedalWright2006] (6.26) reject if update degenerate, strict
+        # inequality also rejects z == 0, for which the update is 0/0
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(z):
             self._diff = np.outer(z, z.T) / d
         else:
             self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 6cc8a647ed567111fc4dd4928723b73d701d7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 03/23] fix: TSSM no longer divides by a zero residual norm

---
 fides/hessian_approximation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 07c635b..a65006f 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -550,10 +550,17 @@ class TSSM(StructuredApproximation):
         bs = hess + norm(r) * self.A
         # Equation (2.6)
         ys = hess.dot(s) + yb
-        # Equation (2.10)
-        self._structured_diff = broyden_class_update(
-            ys, s, bs, phi=self.phi, enforce_curv_cond=self.enforce_curv_cond
-        ) / norm(r)
+        # Equation (2.10), the second order term vanishes for zero residuals
+        if norm(r) > 0:
+            self._structured_diff = broyden_class_update(
+                ys,
+                s,
+                bs,
+                phi=self.phi,
+                enforce_curv_cond=self.enforce_curv_cond,
+            ) / norm(r)
+        else:
+            self._structured_diff = np.zeros_like(self.A)
         self.A += self._structured_diff
         # Equation (2.9)
         self._update_hess_and_store_diff(hess + norm(r) * self.A)
-- 
2.43.0


From 7a31f55206680b44d12e2aca79be23c0e6441c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 04/23] fix: Broyden-class update is skipped where it is
 undefined

---
 fides/hessian_approximation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index a65006f..39313eb 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -644,6 +644,10 @@ def broyden_class_update(
     if b <= 0 and enforce_curv_cond:
         return np.zeros_like(mat)
 
+    # update is undefined
+    if b == 0 or c == 0:
+        return np.zeros_like(mat)
+
     update = np.outer(y, y.T) / b - np.outer(u, u.T) / c
 
     if phi != 0.0:
-- 
2.43.0


From 60c63d819eee0317133ca9231f01c19a05952636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 05/23] fix: orthonormal eigenvectors in the subproblem solver
 for repeated eigenvalues

---
 fides/subproblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..b593aa9 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -135,9 +135,9 @@ def solve_nd_trust_region_subproblem(
 
     # instead of a cholesky factorization, we go with an eigenvalue
     # decomposition, which works pretty well for n=2
-    eigvals, eigvecs = linalg.eig(b)
-    eigvals = np.real(eigvals)
-    eigvecs = np.real(eigvecs)
+    # eigh guarantees orthonormal eigenvectors also for repeated eigenvalues,
+    # only the symmetric part of B contributes to the quadratic form
+    eigvals, eigvecs = linalg.eigh(0.5 * (b + b.T))
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
-- 
2.43.0


From a07aac29766d74daee3d96e88161e90c8a03a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 06/23] fix: root search of the indefinite subproblem starts
 beside the pole, hard case descends

---
 fides/subproblem.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index b593aa9..d5a1b5b 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -141,6 +141,9 @@ def solve_nd_trust_region_subproblem(
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
+    # component of the gradient in the eigenspace of the smallest eigenvalue
+    imin = eigvals == mineig
+    wmin = norm(w[imin])
 
     # since B symmetric eigenvecs V are orthonormal
     # B + lambda I = V * (E + lambda I) * V.T
@@ -160,13 +163,16 @@ def solve_nd_trust_region_subproblem(
         else:
             laminit = 0
     else:
-        laminit = -mineig
+        # s(lam) has a pole at -mineig unless the gradient is orthogonal to
+        # the eigenspace of the smallest eigenvalue. As ||s(lam)|| is at
+        # least wmin/(lam + mineig), this is a lower bound for the solution
+        laminit = -mineig + wmin / delta
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
     # ||s|| > delta, so the provided formula is not applicable,
     # the respective w should be close to 0 anyways
-    if secular(laminit, w, eigvals, eigvecs, delta) < 0:
+    if secular(laminit, w, eigvals, eigvecs, delta) <= 0:
         maxiter = 100
         try:
             r = newton(
@@ -210,14 +216,18 @@ def solve_nd_trust_region_subproblem(
             pass  # may end up here due to ill-conditioning, treat as hard case
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    w[(eigvals - mineig) == 0] = 0
+    if wmin > 0:
+        vmin = eigvecs[:, imin].dot(w[imin] / wmin)
+    else:
+        vmin = eigvecs[:, jmin]
+    w[imin] = 0
     s = slam(-mineig, w, eigvals, eigvecs)
-    # we know that ||s(lam) + sigma*v_jmin|| = delta, since v_jmin is
+    # we know that ||s(lam) + sigma*vmin|| = delta, since vmin is
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
 
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
-    s = s + sigma * eigvecs[:, jmin]
+    s = s + sigma * vmin
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
-- 
2.43.0


From 1d88ea96a2bb75bdd158c9ecd97a6828087d5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 07/23] fix: one-dimensional problems with zero curvature or
 gradient get a finite step

---
 fides/steps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..750de3a 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -284,8 +284,7 @@ class TRStep2D(Step):
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
-- 
2.43.0


From 280058acbe07f0e3b57ec5426d56954f54abd6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 08/23] fix: tangential direction at the trust-region boundary
 yields step length zero

---
 fides/subproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index d5a1b5b..a028b14 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -75,7 +75,11 @@ def get_1d_trust_region_boundary_solution(b, g, s, s0, delta):
     b_coef = 2 * np.dot(s0, s)
     c = np.dot(s0, s0) - delta**2
 
-    aux = b_coef + math.copysign(np.sqrt(b_coef**2 - 4 * a * c), b_coef)
+    disc = np.sqrt(max(b_coef**2 - 4 * a * c, 0.0))
+    aux = b_coef + math.copysign(disc, b_coef)
+    if aux == 0:
+        # s is tangential at s0 on the boundary
+        return 0.0
     ts = [-aux / (2 * a), -2 * c / aux]
     qs = [quadratic_form(b, g, s0 + t * s) for t in ts]
     return ts[np.argmin(qs)]
-- 
2.43.0


From 92f9e878d2934e88f4b8dfb772c694e224b5d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 09/23] fix: steps with undefined model value are not selected
 over defined ones

---
 fides/trust_region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/trust_region.py b/fides/trust_region.py
index f4af887..09e24dc 100644
--- a/fides/trust_region.py
+++ b/fides/trust_region.py
@@ -172,5 +172,6 @@ def trust_region(
             )
         )
 
-    qpvals = [step.qpval for step in steps]
+    # undefined values must not be selected
+    qpvals = [np.inf if np.isnan(step.qpval) else step.qpval for step in steps]
     return steps[np.argmin(qpvals)]
-- 
2.43.0


From 90ef2f0a18fbc63ef85a2f832dccfebff27c3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 10/23] fix: step back of conjugate gradient steps applies to
 the full step

---
 fides/steps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 750de3a..c83c867 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -333,7 +333,10 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # step back applies to the full step
+        self.ss = self.ss + self.ss0
+        self.ss0 = np.zeros_like(self.ss)
+        self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
 
-- 
2.43.0


From 623039a87a50f56f89c830844f76cd6c1bba34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 11/23] fix: conjugate gradient step for a zero gradient is
 zero instead of NaN

---
 fides/steps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index c83c867..0ceefb0 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -362,7 +362,9 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
+            self.subspace = np.expand_dims(d, 1)
+            self.sc = np.zeros((1,))
             self.ss = z
             return
 
-- 
2.43.0


From c4a9864133db6856ac0d3a3d8fbba2662dd8b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 12/23] fix: truncated steps use an orthonormal subspace and
 stay in the trust region

---
 fides/steps.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ceefb0..d4c22cc 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -486,12 +486,18 @@ class TRStepTruncated(Step):
 
         subspace = step.subspace.copy()
         subspace[iminbr, :] = 0
-        # reduce subspace
-        subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # normalize subspace
-        for ix in range(subspace.shape[1]):
-            normalize(subspace[:, ix])
-        self.subspace = subspace
+        # reduce and orthonormalize subspace, removal of variables does not
+        # preserve orthogonality
+        basis = []
+        for v in subspace.T:
+            nv = norm(v)
+            for b in basis:
+                v = v - b * b.dot(v)
+            if norm(v) > np.sqrt(np.spacing(1)) * nv:
+                v = v.copy()
+                normalize(v)
+                basis.append(v)
+        self.subspace = np.array(basis).reshape(len(basis), len(x)).T
 
         for iminbr in step.iminbr:
             self.truncation_indices.add(iminbr)
-- 
2.43.0


From ee344826b7fd26d57bc05937d71460c1cf1a5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 13/23] fix: integer arrays behave as the equal floating point
 arrays

---
 fides/hessian_approximation.py | 4 ++--
 fides/minimize.py              | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 39313eb..f9b1d1f 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -45,7 +45,7 @@ class HessianApproximation:
                     f'dimension, was {hess.shape[0]}, '
                     f'but should be {dim}.'
                 )
-            self._hess = hess.copy()
+            self._hess = hess.astype(float)
         self._diff = np.zeros_like(self._hess)
 
     def get_mat(self) -> np.ndarray:
@@ -79,7 +79,7 @@ class HessianApproximation:
                 f'shape, was {mat.shape}, '
                 f'but should be {self._hess.shape}.'
             )
-        self._hess = mat.copy()
+        self._hess = mat.astype(float)
 
     @property
     def requires_resfun(self):
diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..1c90428 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -250,8 +250,8 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
@@ -354,7 +354,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
@@ -726,7 +726,7 @@ class Optimizer:
         """
         # this implements no scaling for variables that are not constrained by
         # bounds ((iii) and (iv) in Definition 2)
-        v = np.sign(self.grad) + (self.grad == 0)
+        v = (np.sign(self.grad) + (self.grad == 0)).astype(float)
         dv = np.zeros(self.x.shape)
 
         # this implements scaling for variables that are constrained by
-- 
2.43.0


From 99f40941075d9d173f85fffb92717411b39b433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 14/23] fix: initial approximations that are not square are
 rejected

---
 fides/hessian_approximation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index f9b1d1f..1443fbb 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -39,11 +39,11 @@ class HessianApproximation:
         if hess is None:
             self._hess = np.eye(dim)
         else:
-            if hess.shape[0] != dim:
+            if hess.shape != (dim, dim):
                 raise ValueError(
                     'Initial approximation had inconsistent '
-                    f'dimension, was {hess.shape[0]}, '
-                    f'but should be {dim}.'
+                    f'dimension, was {hess.shape}, '
+                    f'but should be {(dim, dim)}.'
                 )
             self._hess = hess.astype(float)
         self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 5e69c9b9d6c55519dc28b2a523797374d983a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 15/23] fix: residual functions can be used without Hessian
 approximation

---
 fides/minimize.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 1c90428..8ea3893 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -226,11 +226,8 @@ class Optimizer:
         """
         nargout = (
             3
-            if hessian_update is None
-            or (
-                hessian_update.requires_hess
-                and not hessian_update.requires_resfun
-            )
+            if not resfun
+            and (hessian_update is None or hessian_update.requires_hess)
             else 2
         )
 
-- 
2.43.0


From 0185627e6f5d6624743e352e92e71ce6502342b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 16/23] fix: objective output is checked before it is used

---
 fides/minimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 8ea3893..7bbb91a 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -359,6 +359,8 @@ class Optimizer:
 
         funout = self.fevaler(self.x)
 
+        funout.checkdims()
+
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
             if isinstance(hess0, str) and hess0 == 'hess':
@@ -369,8 +371,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
-- 
2.43.0


From bd8ee97789ad9c03f48017644eb6196af0dbd9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 17/23] fix: options given by name are validated like enum
 members, infinite maxiter raises TypeError

---
 fides/constants.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..5ec5969 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -128,15 +128,19 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
         if not isinstance(option_value, expected_type):
-            if expected_type == Integral and int(option_value) == option_value:
+            if (
+                expected_type == Integral
+                and isinstance(option_value, Real)
+                and option_value == option_value // 1
+            ):
                 continue
             raise TypeError(
                 f'Type mismatch for option {option_key}. '
-- 
2.43.0


From d4bb8792217c62b002d11f6914a608c8f2402b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 18/23] fix: trial points do not exceed bounds through rounding

---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 7bbb91a..325df19 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -408,7 +408,8 @@ class Optimizer:
                 logger=self.logger,
             )
 
-            x_new = self.x + step.s + step.s0
+            # avoid exceeding bounds through rounding
+            x_new = np.clip(self.x + step.s + step.s0, self.lb, self.ub)
             funout_new = self.fevaler(x_new)
 
             if np.isfinite(funout_new.fval):
-- 
2.43.0


From c95ed529c42ee842459d991cf90420f8acc893a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 19/23] fix: gradient convergence is assessed at the retained
 point

---
 fides/minimize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 325df19..2093115 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -609,7 +609,11 @@ class Optimizer:
         xtol = self.get_option(Options.XTOL)
         gatol = self.get_option(Options.GATOL)
         grtol = self.get_option(Options.GRTOL)
-        gnorm = norm(grad)
+        if self.tr_ratio > 0.0:
+            gnorm, fref = norm(grad), fval
+        else:
+            # step was rejected, current point is retained
+            gnorm, fref = norm(self.grad), self.fval
         stepsx = step.ss + step.ss0
         nsx = norm(stepsx)
 
@@ -641,12 +645,12 @@ class Optimizer:
             )
             converged = True
 
-        elif gnorm <= grtol * np.abs(self.fval):
+        elif gnorm <= grtol * np.abs(fref):
             self.exitflag = ExitFlag.GTOL
             self.logger.info(
                 'Stopping as gradient norm satisfies relative convergence '
                 f'criteria: {gnorm:.2E} < {grtol:.2E} * '
-                f'{np.abs(self.fval):.2E}'
+                f'{np.abs(fref):.2E}'
             )
             converged = True
 
-- 
2.43.0


From 85d37c2d41c276127fb301db6ef799303c357c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 20/23] fix: exit flag, best point and scheme switch are reset
 when an optimizer is reused

---
 fides/hessian_approximation.py | 4 ++++
 fides/minimize.py              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 1443fbb..05172d4 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -278,6 +278,10 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        self._switched = False
+        super()._init_mat(dim, hess)
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
diff --git a/fides/minimize.py b/fides/minimize.py
index 2093115..4a8bbc8 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -298,9 +298,13 @@ class Optimizer:
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
         self.converged = False
+        self.exitflag = ExitFlag.DID_NOT_RUN
+        self.tr_ratio = 1
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
+        self.x_min = np.empty(self.ub.shape)
         self.fval_min = np.inf
+        self.grad_min = np.empty(self.ub.shape)
         self.logger = create_logger(self.verbose)
         if not start_id:
             start_id = str(uuid.uuid1())
-- 
2.43.0


From f6329fa9d99d4b7fa27f335726f5e337c4dacddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 21/23] fix: concurrent optimizations never share a logger

---
 fides/logging.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fides/logging.py b/fides/logging.py
index ce2112f..f35c3a7 100644
--- a/fides/logging.py
+++ b/fides/logging.py
@@ -8,9 +8,10 @@ optimizer as well as debugging information
     logging.Logger instance that can be used throughout fides
 """
 
+import itertools
 import logging
 
-logger_count = 0
+logger_count = itertools.count(1)
 
 
 def create_logger(level: int) -> logging.Logger:
@@ -24,11 +25,9 @@ def create_logger(level: int) -> logging.Logger:
     :return:
         logger instance
     """
-    global logger_count
-    logger_count += 1
     # add logger count to differentiate between different fides
-    # optimization instances and avoid deadlocks
-    logger = logging.getLogger(f'fides_{logger_count}')
+    # optimization instances and avoid deadlocks, incrementing is atomic
+    logger = logging.getLogger(f'fides_{next(logger_count)}')
     ch = logging.StreamHandler()
     formatter = logging.Formatter(
         fmt='%(asctime)s fides(%(levelname)s) %(message)s',
-- 
2.43.0


From 4c8edd46e754a6a697c92ece736021cd07d374b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 22/23] fix: keep trust-region step inside radius when
 rootfinding fails

---
 fides/subproblem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index a028b14..238bb22 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -178,6 +178,8 @@ def solve_nd_trust_region_subproblem(
     # the respective w should be close to 0 anyways
     if secular(laminit, w, eigvals, eigvecs, delta) <= 0:
         maxiter = 100
+        # rounding errors in norm(s) are proportional to the radius
+        scale = max(delta, 1.0)
         try:
             r = newton(
                 secular,
@@ -188,7 +190,7 @@ def solve_nd_trust_region_subproblem(
                 args=(w, eigvals, eigvecs, delta),
             )
             s = slam(r, w, eigvals, eigvecs)
-            if norm(s) <= delta + 1e-12:
+            if norm(s) <= delta + 1e-12 * scale:
                 logger.debug('Found boundary subproblem solution via newton')
                 return s, 'indef'
         except RuntimeError:
@@ -211,7 +213,7 @@ def solve_nd_trust_region_subproblem(
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-                if norm(s) <= delta + np.sqrt(np.spacing(1)):
+                if norm(s) <= delta + np.sqrt(np.spacing(1)) * scale:
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
@@ -232,6 +234,10 @@ def solve_nd_trust_region_subproblem(
 
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
     s = s + sigma * vmin
+    # if rootfinding failed, s may still be outside of the trust region
+    sn = norm(s)
+    if sn > delta:
+        s = s * (delta / sn)
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
-- 
2.43.0


From 58731a8cd4c62426bcfbf0f0ba6b395e7224e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:12 +0000
Subject: [PATCH 23/23] fix: repeated reflections and truncations are all
 counted

---
 fides/steps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index d4c22cc..4cb5fb5 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -443,6 +443,7 @@ class TRStepReflected(Step):
         normalize(nss)
         self.subspace = np.expand_dims(nss, 1)
 
+        self.reflection_indices = set(step.reflection_indices)
         for iminbr in step.iminbr:
             self.reflection_indices.add(iminbr)
 
@@ -499,6 +500,7 @@ class TRStepTruncated(Step):
                 basis.append(v)
         self.subspace = np.array(basis).reshape(len(basis), len(x)).T
 
+        self.truncation_indices = set(step.truncation_indices)
         for iminbr in step.iminbr:
             self.truncation_indices.add(iminbr)
 
-- 
2.43.0

