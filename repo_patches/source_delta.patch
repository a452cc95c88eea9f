From c0d380d12157de5f58fc5dff8926dd6a1680a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:51 +0000
Subject: [PATCH 1/5] fix: EllStable without deferred scaling must scale only
 the diagonal factor

---
 src/ellalgo/ell_stable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..9f24ea5 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -253,6 +253,8 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            # only the inverse diagonal carries the scale: M = L^-T D^-1 L^-1
+            for i in range(self._ndim):
+                self._mq[i, i] *= self._kappa
             self._kappa = 1.0
         return status
-- 
2.43.0


From ee3a02a4cc083be0bbce4505618c6b265c4b5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:51 +0000
Subject: [PATCH 2/5] fix: conjugate_gradient accepts a starting point that
 already solves the system

---
 src/ellalgo/conjugate_gradient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c0b6321..253e454 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -65,6 +65,10 @@ def conjugate_gradient(
     direction = residual.copy()  # Initial search direction is set to residual
     residual_norm_sq = np.dot(residual, residual)  # Squared norm of residual
 
+    # The starting point may already solve the system
+    if np.sqrt(residual_norm_sq) < tol:
+        return solution
+
     for iteration in range(max_iter):
         A_direction = np.dot(A, direction)  # Matrix-vector product for line search
         direction_dot_A_direction = np.dot(direction, A_direction)
-- 
2.43.0


From 99ede3f00af11a8fa827e41f37c491891713f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:51 +0000
Subject: [PATCH 3/5] fix: cutting_plane_optim_q keeps a copy of the best point

---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index aa022eb..ea0a2ce 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -276,7 +276,7 @@ def cutting_plane_optim_q(
         cut, x_q, gamma1, more_alt = omega.assess_optim_q(space_q.xc(), gamma, retry)
         if gamma1 is not None:  # Improved objective value
             gamma = gamma1
-            x_best = x_q
+            x_best = copy.copy(x_q)
         # Update search space with quantized cut
         status = space_q.update_q(cut)
         if status == CutStatus.Success:
-- 
2.43.0


From 3086f2de3c64dcda7bfd2318b206e40b10560b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:51 +0000
Subject: [PATCH 4/5] fix: EllStable rejects a zero gradient with ValueError
 like Ell

---
 src/ellalgo/ell_stable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 9f24ea5..772df34 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -193,6 +193,8 @@ class EllStable(SearchSpace[ArrayType]):
             CutStatus.Success
         """
         g, beta = cut
+        if np.all(g == 0.0):
+            raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
-- 
2.43.0


From ddefbe875cf35715d7a00860fc1c6f70220c471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:51 +0000
Subject: [PATCH 5/5] fix: search spaces keep their own copy of the centre they
 are given

---
 src/ellalgo/ell.py        | 5 +++--
 src/ellalgo/ell_stable.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..78dbd97 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -12,6 +12,7 @@ Key operations:
     - update_q: Apply a cut for discrete/quantized optimization
 """
 
+import copy
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -74,7 +75,7 @@ class Ell(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
         self._tsq = 0.0
         if isinstance(val, (int, float)):
             # Case 1: val is a scalar (kappa), create identity matrix
@@ -101,7 +102,7 @@ class Ell(SearchSpace[ArrayType]):
         Args:
             x_center: The new center point for the ellipsoid
         """
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
 
     def tsq(self) -> float:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 772df34..30030ce 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -12,6 +12,7 @@ Key differences from `Ell`:
     - Implements rank-one updates for the LDL^T factors
 """
 
+import copy
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -68,7 +69,7 @@ class EllStable(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
         self._tsq = 0.0
         self._ndim = ndim
         if isinstance(val, (int, float)):
@@ -92,7 +93,7 @@ class EllStable(SearchSpace[ArrayType]):
         :param x_center: The parameter `x_center` is of type `ArrayType`
         :type x_center: ArrayType
         """
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
 
     def tsq(self) -> float:
         """
-- 
2.43.0

