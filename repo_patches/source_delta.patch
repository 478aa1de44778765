From f2021c1d4a08d195cea9e9bb979376ea65f15f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 01/15] fix: derivatives of linear splines on regular grids
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

δ is the inverse step on regular dimensions but was the step on irregular
ones; the order 1 basis divided by it, which is wrong on regular grids.
Use the inverse step everywhere.
---
 interpolation/splines/codegen.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 963a7ad..567fec7 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -92,8 +92,8 @@ def blending_formula(k=1, l=0, i=0):
 Φ_{i}_{1} = λ_{i}"""
         elif l == 1:
             s = f"""\
-d_Φ_{i}_{0} = -1.0/δ_{i}
-d_Φ_{i}_{1} = 1.0/δ_{i}"""
+d_Φ_{i}_{0} = -δ_{i}
+d_Φ_{i}_{1} = δ_{i}"""
         else:
             s = f"""
 d_{l}_Φ_{i}_{0} = 0.0
@@ -215,8 +215,9 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dimension {{i}}: nonuniform grid
     i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
     i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-    δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+    h_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+    δ_{{i}} = 1.0/h_{{i}}
+    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/h_{{i}}
     {{endif}}
     
     {{endfor}}
@@ -353,8 +354,9 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         # dimension {{i}}: nonuniform grid
         i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
         i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-        δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+        h_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+        δ_{{i}} = 1.0/h_{{i}}
+        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/h_{{i}}
         {{endif}}
         {{endfor}}
 
-- 
2.43.0


From 3c88d95f871ee9f122873e11147d33535ea21298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 02/15] fix: nearest and constant extrapolation of single
 points on irregular grids

The bounds a_i, b_i were not defined for irregular dimensions in the
single point template (they are in the vectorized one).
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 567fec7..4e73b1a 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -179,6 +179,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dim {{i}}: nonuniform
     gc_{{i}} = grid[{{i}}]
     N_{{i}} = gc_{{i}}.shape[0]
+    a_{{i}} = gc_{{i}}[0]
+    b_{{i}} = gc_{{i}}[N_{{i}}-1]
     {{endif}}
     {{endfor}}
 
-- 
2.43.0


From c8f9ed7f0c2475b4029186dfe713a8eedcfaabca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 03/15] fix: constant extrapolation of single points into a
 given output

The in-place vector valued function did not return after writing zeros,
which were then overwritten by the linear extrapolation.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 4e73b1a..f2d3474 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -196,6 +196,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         out[:] = 0.0
         {{if allocate}}
         return out
+        {{else}}
+        return
         {{endif}}
         {{else}}
         val = 0.0
-- 
2.43.0


From ccbbbd4c684e3f1eaef61723fe7cf25905d525b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 04/15] fix: constant extrapolation of single points with
 derivatives

Scalar splines returned one zero instead of one per requested order
(which does not compile), or left the given output array untouched.
---
 interpolation/splines/codegen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index f2d3474..476e841 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -199,6 +199,13 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{else}}
         return
         {{endif}}
+        {{elif isinstance(orders, (tuple, list))}}
+        {{if allocate}}
+        return ({{"0.0, "*len(orders)}})
+        {{else}}
+        out[:] = 0.0
+        return
+        {{endif}}
         {{else}}
         val = 0.0
         return val
-- 
2.43.0


From 637c5034fa649e3ff842fec9b277ce88c6320f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:54 +0000
Subject: [PATCH 05/15] fix: grid of one-dimensional linear spline objects

numpy.linspace does not accept an array as the number of samples.
---
 interpolation/splines/multilinear.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index eee3dff..76d96bf 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -6,9 +6,7 @@ import numpy as np
 
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders))
-        )
+        res = np.atleast_2d(np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  ## workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 73ee229ec1964c349c967fec36238184e5aece64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:54 +0000
Subject: [PATCH 06/15] fix: vec_multilinear_interpolation with an output array

It referred to an undefined name.
---
 interpolation/splines/multilinear_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear_numba.py b/interpolation/splines/multilinear_numba.py
index 7ca7892..b5d2c52 100644
--- a/interpolation/splines/multilinear_numba.py
+++ b/interpolation/splines/multilinear_numba.py
@@ -12,7 +12,7 @@ def vec_multilinear_interpolation(smin, smax, orders, mvalues, s, out=None):
     if out is None:
         return eval_linear(grid, mvalues, s)
     else:
-        eval_linear(grid, values, s, out)
+        eval_linear(grid, mvalues, s, out)
 
 
 def multilinear_interpolation(smin, smax, orders, values, s, out=None):
-- 
2.43.0


From 37527423c1ebd955fcead81c615de17a07a3bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 07/15] fix: nodes of grids with irregular dimensions

An irregular dimension was read as (first node, second node, third node).
---
 interpolation/splines/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index e23a570..173d422 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -37,6 +37,6 @@ def CGrid(*args):
 
 
 def nodes(grid):
-    from interpolation.cartesian import mlinspace
+    from interpolation.cartesian import cartesian
 
-    return mlinspace([g[0] for g in grid], [g[1] for g in grid], [g[2] for g in grid])
+    return cartesian([g if isinstance(g, np.ndarray) else np.linspace(*g) for g in grid])
-- 
2.43.0


From b0a0ad30221ddee05def1fc3d3f6d946e3632aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 08/15] fix: Hermite interpolation at nan read past the end of
 the arrays

---
 interpolation/splines/hermite.py | 274 +++++++++++++++----------------
 1 file changed, 137 insertions(+), 137 deletions(-)

diff --git a/interpolation/splines/hermite.py b/interpolation/splines/hermite.py
index aadfab5..d394186 100644
--- a/interpolation/splines/hermite.py
+++ b/interpolation/splines/hermite.py
@@ -1,137 +1,137 @@
-import numpy as np
-from numba import jit
-import numpy.typing as npt
-from typing import Tuple
-
-
-class Vector:
-    pass
-
-
-@jit(nopython=True)
-def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
-    """Computes the cubic Hermite splines in lambda0
-    Inputs: - float: lambda0
-    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
-    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
-    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
-    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
-    h11 = (lambda0**3) - (lambda0**2)
-    return (h00, h10, h01, h11)
-
-
-@jit(nopython=True)
-def hermite_interp(
-    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
-) -> float:
-    """Returns the interpolated value for x0.
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - float: xk, abscissa of the nearest lowest point to x0 on the grid
-            - float: xkn, abscissa of the nearest largest point to x0 on the grid
-            - float: pk, value associated to xk
-            - float: pkn, value associated to xkn
-            - float: mk, tangent in xk
-            - float: mkn, tangent in xkn
-    Output: - float: interpolated value for x0
-    """
-    t = (x0 - xk) / (xkn - xk)
-    hsplines = hermite_splines(t)
-    return (
-        pk * hsplines[0]
-        + mk * (xkn - xk) * hsplines[1]
-        + pkn * hsplines[2]
-        + mkn * (xkn - xk) * hsplines[3]
-    )
-
-
-@jit(nopython=True)
-def HermiteInterpolation(x0: float, x, y, yp):
-    """Returns the interpolated value for x0
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: yp, tangents of the x elements
-    Output: - float: interpolated value"""
-    ###### Extrapolation case ######
-    if x0 <= np.min(x):
-        return y[0]
-    elif x0 >= np.max(x):
-        return y[-1]
-
-    ###### Interpolation case ######
-    indx = np.searchsorted(x, x0)
-    xk, xkn = x[indx - 1], x[indx]
-    pk, pkn = y[indx - 1], y[indx]
-    mk, mkn = yp[indx - 1], yp[indx]
-    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
-
-
-@jit(nopython=True)
-def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
-    """Returns the interpolated value for all elements in xvect
-    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: tang, tangents of the x elements
-    Output: - np.ndarray: interpolated values"""
-    N = len(xvect)
-    out = np.zeros(N)
-    for i in range(N):
-        x0 = xvect[i]
-        out[i] = HermiteInterpolation(x0, x, y, yp)
-    return out
-
-
-from numba import njit, types
-from numba.extending import overload, register_jitable
-
-
-def _hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(_hermite)
-def _hermite(x0, x, y, yp, out=None):
-    def _hermite(x0, x, y, yp, out=None):
-        return HermiteInterpolation(x0, x, y, yp)
-
-    return _hermite
-
-
-from numba.core.types.misc import NoneType as none
-
-
-def hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(hermite)
-def ol_hermite(x0, x, y, yp, out=None):
-    try:
-        n = x0.ndim
-        if n == 1:
-            input_type = "vector"
-        elif n == 2:
-            input_type = "matrix"
-        else:
-            raise Exception("Invalid input type")
-    except:
-        # n must be a scalar
-        input_type = "scalar"
-
-    if input_type == "scalar":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolation(x0, x, y, yp)
-
-    elif input_type == "vector":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0, x, y, yp)
-
-    elif input_type == "matrix":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
-
-    return _hermite
+import numpy as np
+from numba import jit
+import numpy.typing as npt
+from typing import Tuple
+
+
+class Vector:
+    pass
+
+
+@jit(nopython=True)
+def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
+    """Computes the cubic Hermite splines in lambda0
+    Inputs: - float: lambda0
+    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
+    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
+    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
+    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
+    h11 = (lambda0**3) - (lambda0**2)
+    return (h00, h10, h01, h11)
+
+
+@jit(nopython=True)
+def hermite_interp(
+    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
+) -> float:
+    """Returns the interpolated value for x0.
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - float: xk, abscissa of the nearest lowest point to x0 on the grid
+            - float: xkn, abscissa of the nearest largest point to x0 on the grid
+            - float: pk, value associated to xk
+            - float: pkn, value associated to xkn
+            - float: mk, tangent in xk
+            - float: mkn, tangent in xkn
+    Output: - float: interpolated value for x0
+    """
+    t = (x0 - xk) / (xkn - xk)
+    hsplines = hermite_splines(t)
+    return (
+        pk * hsplines[0]
+        + mk * (xkn - xk) * hsplines[1]
+        + pkn * hsplines[2]
+        + mkn * (xkn - xk) * hsplines[3]
+    )
+
+
+@jit(nopython=True)
+def HermiteInterpolation(x0: float, x, y, yp):
+    """Returns the interpolated value for x0
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: yp, tangents of the x elements
+    Output: - float: interpolated value"""
+    ###### Extrapolation case ######
+    if x0 <= np.min(x):
+        return y[0]
+    elif x0 >= np.max(x):
+        return y[-1]
+
+    ###### Interpolation case ######
+    indx = min(np.searchsorted(x, x0), len(x) - 1)  # x0 can be nan
+    xk, xkn = x[indx - 1], x[indx]
+    pk, pkn = y[indx - 1], y[indx]
+    mk, mkn = yp[indx - 1], yp[indx]
+    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
+
+
+@jit(nopython=True)
+def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
+    """Returns the interpolated value for all elements in xvect
+    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: tang, tangents of the x elements
+    Output: - np.ndarray: interpolated values"""
+    N = len(xvect)
+    out = np.zeros(N)
+    for i in range(N):
+        x0 = xvect[i]
+        out[i] = HermiteInterpolation(x0, x, y, yp)
+    return out
+
+
+from numba import njit, types
+from numba.extending import overload, register_jitable
+
+
+def _hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(_hermite)
+def _hermite(x0, x, y, yp, out=None):
+    def _hermite(x0, x, y, yp, out=None):
+        return HermiteInterpolation(x0, x, y, yp)
+
+    return _hermite
+
+
+from numba.core.types.misc import NoneType as none
+
+
+def hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(hermite)
+def ol_hermite(x0, x, y, yp, out=None):
+    try:
+        n = x0.ndim
+        if n == 1:
+            input_type = "vector"
+        elif n == 2:
+            input_type = "matrix"
+        else:
+            raise Exception("Invalid input type")
+    except:
+        # n must be a scalar
+        input_type = "scalar"
+
+    if input_type == "scalar":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolation(x0, x, y, yp)
+
+    elif input_type == "vector":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0, x, y, yp)
+
+    elif input_type == "matrix":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
+
+    return _hermite
-- 
2.43.0


From b7d30fd67f77e573d756f17f4ba3cc08079ec6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 09/15] fix: gradient of cubic multi-splines outside of the
 grid

Values are extrapolated linearly but the derivatives were those of the
cubic polynomial of the last cell. Return the slope at the bound.
---
 interpolation/splines/eval_cubic_numba.py | 40 +++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index e6b201e..25b22d8 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -5110,6 +5110,10 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp0_2
                 + Ad[3, 3] * tp0_3
             )
+        if t0 < 0:
+            tp0_0, tp0_1, tp0_2 = 0.0, 0.0, 0.0
+        elif t0 > 1:
+            tp0_0, tp0_1, tp0_2 = 1.0, 1.0, 1.0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5276,6 +5280,10 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp1_2
                 + Ad[3, 3] * tp1_3
             )
+        if t0 < 0:
+            tp0_0, tp0_1, tp0_2 = 0.0, 0.0, 0.0
+        elif t0 > 1:
+            tp0_0, tp0_1, tp0_2 = 1.0, 1.0, 1.0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5300,6 +5308,10 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        if t1 < 0:
+            tp1_0, tp1_1, tp1_2 = 0.0, 0.0, 0.0
+        elif t1 > 1:
+            tp1_0, tp1_1, tp1_2 = 1.0, 1.0, 1.0
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5603,6 +5615,10 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp2_2
                 + Ad[3, 3] * tp2_3
             )
+        if t0 < 0:
+            tp0_0, tp0_1, tp0_2 = 0.0, 0.0, 0.0
+        elif t0 > 1:
+            tp0_0, tp0_1, tp0_2 = 1.0, 1.0, 1.0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5627,6 +5643,10 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        if t1 < 0:
+            tp1_0, tp1_1, tp1_2 = 0.0, 0.0, 0.0
+        elif t1 > 1:
+            tp1_0, tp1_1, tp1_2 = 1.0, 1.0, 1.0
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5651,6 +5671,10 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        if t2 < 0:
+            tp2_0, tp2_1, tp2_2 = 0.0, 0.0, 0.0
+        elif t2 > 1:
+            tp2_0, tp2_1, tp2_2 = 1.0, 1.0, 1.0
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6427,6 +6451,10 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp3_2
                 + Ad[3, 3] * tp3_3
             )
+        if t0 < 0:
+            tp0_0, tp0_1, tp0_2 = 0.0, 0.0, 0.0
+        elif t0 > 1:
+            tp0_0, tp0_1, tp0_2 = 1.0, 1.0, 1.0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -6451,6 +6479,10 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        if t1 < 0:
+            tp1_0, tp1_1, tp1_2 = 0.0, 0.0, 0.0
+        elif t1 > 1:
+            tp1_0, tp1_1, tp1_2 = 1.0, 1.0, 1.0
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -6475,6 +6507,10 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        if t2 < 0:
+            tp2_0, tp2_1, tp2_2 = 0.0, 0.0, 0.0
+        elif t2 > 1:
+            tp2_0, tp2_1, tp2_2 = 1.0, 1.0, 1.0
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6499,6 +6535,10 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp2_2
             + dAd[3, 3] * tp2_3
         ) * dinv2
+        if t3 < 0:
+            tp3_0, tp3_1, tp3_2 = 0.0, 0.0, 0.0
+        elif t3 > 1:
+            tp3_0, tp3_1, tp3_2 = 1.0, 1.0, 1.0
         dPhi3_0 = (
             dAd[0, 0] * tp3_0
             + dAd[0, 1] * tp3_1
-- 
2.43.0


From d9b2ae417cc89ccbc3e79630de554b8b65cd25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:59 +0000
Subject: [PATCH 10/15] fix: eval_cubic and filter_cubic replaced by modules
 after some calls

Importing the submodules of the same name (which spline objects do when
they are used) rebound interpolation.splines.eval_cubic and filter_cubic
to these modules.
---
 interpolation/splines/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index 173d422..c4f8c36 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -1,3 +1,5 @@
+# load these submodules first: imported later, they would replace the functions of the same name
+from . import eval_cubic, filter_cubic
 from .splines import CubicSpline, CubicSplines
 from .multilinear import LinearSpline, LinearSplines
 from .eval_splines import options, eval_linear, eval_cubic, eval_spline
-- 
2.43.0


From 53cf4687a2b19ee41bd9af36e728fae12fb40dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:03 +0000
Subject: [PATCH 11/15] fix: restore the CRLF line endings of hermite.py

The repair in b0a0ad3 rewrote the whole file with LF endings; with this
commit it touches only the searchsorted line.
---
 interpolation/splines/hermite.py | 274 +++++++++++++++----------------
 1 file changed, 137 insertions(+), 137 deletions(-)

diff --git a/interpolation/splines/hermite.py b/interpolation/splines/hermite.py
index d394186..4aa9780 100644
--- a/interpolation/splines/hermite.py
+++ b/interpolation/splines/hermite.py
@@ -1,137 +1,137 @@
-import numpy as np
-from numba import jit
-import numpy.typing as npt
-from typing import Tuple
-
-
-class Vector:
-    pass
-
-
-@jit(nopython=True)
-def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
-    """Computes the cubic Hermite splines in lambda0
-    Inputs: - float: lambda0
-    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
-    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
-    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
-    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
-    h11 = (lambda0**3) - (lambda0**2)
-    return (h00, h10, h01, h11)
-
-
-@jit(nopython=True)
-def hermite_interp(
-    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
-) -> float:
-    """Returns the interpolated value for x0.
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - float: xk, abscissa of the nearest lowest point to x0 on the grid
-            - float: xkn, abscissa of the nearest largest point to x0 on the grid
-            - float: pk, value associated to xk
-            - float: pkn, value associated to xkn
-            - float: mk, tangent in xk
-            - float: mkn, tangent in xkn
-    Output: - float: interpolated value for x0
-    """
-    t = (x0 - xk) / (xkn - xk)
-    hsplines = hermite_splines(t)
-    return (
-        pk * hsplines[0]
-        + mk * (xkn - xk) * hsplines[1]
-        + pkn * hsplines[2]
-        + mkn * (xkn - xk) * hsplines[3]
-    )
-
-
-@jit(nopython=True)
-def HermiteInterpolation(x0: float, x, y, yp):
-    """Returns the interpolated value for x0
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: yp, tangents of the x elements
-    Output: - float: interpolated value"""
-    ###### Extrapolation case ######
-    if x0 <= np.min(x):
-        return y[0]
-    elif x0 >= np.max(x):
-        return y[-1]
-
-    ###### Interpolation case ######
-    indx = min(np.searchsorted(x, x0), len(x) - 1)  # x0 can be nan
-    xk, xkn = x[indx - 1], x[indx]
-    pk, pkn = y[indx - 1], y[indx]
-    mk, mkn = yp[indx - 1], yp[indx]
-    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
-
-
-@jit(nopython=True)
-def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
-    """Returns the interpolated value for all elements in xvect
-    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: tang, tangents of the x elements
-    Output: - np.ndarray: interpolated values"""
-    N = len(xvect)
-    out = np.zeros(N)
-    for i in range(N):
-        x0 = xvect[i]
-        out[i] = HermiteInterpolation(x0, x, y, yp)
-    return out
-
-
-from numba import njit, types
-from numba.extending import overload, register_jitable
-
-
-def _hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(_hermite)
-def _hermite(x0, x, y, yp, out=None):
-    def _hermite(x0, x, y, yp, out=None):
-        return HermiteInterpolation(x0, x, y, yp)
-
-    return _hermite
-
-
-from numba.core.types.misc import NoneType as none
-
-
-def hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(hermite)
-def ol_hermite(x0, x, y, yp, out=None):
-    try:
-        n = x0.ndim
-        if n == 1:
-            input_type = "vector"
-        elif n == 2:
-            input_type = "matrix"
-        else:
-            raise Exception("Invalid input type")
-    except:
-        # n must be a scalar
-        input_type = "scalar"
-
-    if input_type == "scalar":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolation(x0, x, y, yp)
-
-    elif input_type == "vector":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0, x, y, yp)
-
-    elif input_type == "matrix":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
-
-    return _hermite
+import numpy as np
+from numba import jit
+import numpy.typing as npt
+from typing import Tuple
+
+
+class Vector:
+    pass
+
+
+@jit(nopython=True)
+def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
+    """Computes the cubic Hermite splines in lambda0
+    Inputs: - float: lambda0
+    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
+    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
+    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
+    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
+    h11 = (lambda0**3) - (lambda0**2)
+    return (h00, h10, h01, h11)
+
+
+@jit(nopython=True)
+def hermite_interp(
+    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
+) -> float:
+    """Returns the interpolated value for x0.
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - float: xk, abscissa of the nearest lowest point to x0 on the grid
+            - float: xkn, abscissa of the nearest largest point to x0 on the grid
+            - float: pk, value associated to xk
+            - float: pkn, value associated to xkn
+            - float: mk, tangent in xk
+            - float: mkn, tangent in xkn
+    Output: - float: interpolated value for x0
+    """
+    t = (x0 - xk) / (xkn - xk)
+    hsplines = hermite_splines(t)
+    return (
+        pk * hsplines[0]
+        + mk * (xkn - xk) * hsplines[1]
+        + pkn * hsplines[2]
+        + mkn * (xkn - xk) * hsplines[3]
+    )
+
+
+@jit(nopython=True)
+def HermiteInterpolation(x0: float, x, y, yp):
+    """Returns the interpolated value for x0
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: yp, tangents of the x elements
+    Output: - float: interpolated value"""
+    ###### Extrapolation case ######
+    if x0 <= np.min(x):
+        return y[0]
+    elif x0 >= np.max(x):
+        return y[-1]
+
+    ###### Interpolation case ######
+    indx = min(np.searchsorted(x, x0), len(x) - 1)  # x0 can be nan
+    xk, xkn = x[indx - 1], x[indx]
+    pk, pkn = y[indx - 1], y[indx]
+    mk, mkn = yp[indx - 1], yp[indx]
+    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
+
+
+@jit(nopython=True)
+def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
+    """Returns the interpolated value for all elements in xvect
+    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: tang, tangents of the x elements
+    Output: - np.ndarray: interpolated values"""
+    N = len(xvect)
+    out = np.zeros(N)
+    for i in range(N):
+        x0 = xvect[i]
+        out[i] = HermiteInterpolation(x0, x, y, yp)
+    return out
+
+
+from numba import njit, types
+from numba.extending import overload, register_jitable
+
+
+def _hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(_hermite)
+def _hermite(x0, x, y, yp, out=None):
+    def _hermite(x0, x, y, yp, out=None):
+        return HermiteInterpolation(x0, x, y, yp)
+
+    return _hermite
+
+
+from numba.core.types.misc import NoneType as none
+
+
+def hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(hermite)
+def ol_hermite(x0, x, y, yp, out=None):
+    try:
+        n = x0.ndim
+        if n == 1:
+            input_type = "vector"
+        elif n == 2:
+            input_type = "matrix"
+        else:
+            raise Exception("Invalid input type")
+    except:
+        # n must be a scalar
+        input_type = "scalar"
+
+    if input_type == "scalar":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolation(x0, x, y, yp)
+
+    elif input_type == "vector":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0, x, y, yp)
+
+    elif input_type == "matrix":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
+
+    return _hermite
-- 
2.43.0


From 3ea127cb9cf70b61e344c2ef62f8084bfe20c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:16 +0000
Subject: [PATCH 12/15] fix: custom delimiters of templates

---
 interpolation/tempita/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index fb86dae..ccaf215 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -119,7 +119,7 @@ class Template(object):
             )
         else:
             assert len(delimeters) == 2 and all(
-                [isinstance(delimeter, basestring) for delimeter in delimeters]
+                [isinstance(delimeter, basestring_) for delimeter in delimeters]
             )
             self.default_namespace = self.__class__.default_namespace.copy()
             self.default_namespace["start_braces"] = delimeters[0]
-- 
2.43.0


From 7c0e9884a30ac8085baf8284d6577c4a646ff4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 13/15] fix: HTML templates and bunch on Python 3 (cgi.escape
 and iteritems are gone)

---
 interpolation/tempita/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interpolation/tempita/__init__.py b/interpolation/tempita/__init__.py
index ccaf215..33ba6d4 100644
--- a/interpolation/tempita/__init__.py
+++ b/interpolation/tempita/__init__.py
@@ -31,7 +31,7 @@ If there are syntax errors ``TemplateError`` will be raised.
 
 import re
 import sys
-import cgi
+from html import escape
 from urllib.parse import quote as url_quote
 import os
 import tokenize
@@ -423,7 +423,7 @@ def paste_script_template_renderer(content, vars, filename=None):
 
 class bunch(dict):
     def __init__(self, **kw):
-        for name, value in kw.iteritems():
+        for name, value in kw.items():
             setattr(self, name, value)
 
     def __setattr__(self, name, value):
@@ -445,7 +445,7 @@ class bunch(dict):
             return dict.__getitem__(self, key)
 
     def __repr__(self):
-        items = [(k, v) for k, v in self.iteritems()]
+        items = [(k, v) for k, v in self.items()]
         items.sort()
         return "<%s %s>" % (
             self.__class__.__name__,
@@ -480,10 +480,10 @@ def html_quote(value, force=True):
     if not isinstance(value, basestring_):
         value = coerce_text(value)
     if sys.version >= "3" and isinstance(value, bytes):
-        value = cgi.escape(value.decode("latin1"), 1)
+        value = escape(value.decode("latin1"))
         value = value.encode("latin1")
     else:
-        value = cgi.escape(value, 1)
+        value = escape(value)
     if sys.version < "3":
         if is_unicode(value):
             value = value.encode("ascii", "xmlcharrefreplace")
@@ -498,7 +498,7 @@ def url(v):
 
 
 def attr(**kw):
-    kw = list(kw.iteritems())
+    kw = list(kw.items())
     kw.sort()
     parts = []
     for name, value in kw:
-- 
2.43.0


From a995dcb8c5c8ec2b2fb4ebe4e788bb73302c2c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 14/15] fix: eval_linear and eval_cubic took an unknown option
 for an output array

For a scalar result at a single point any fourth argument was accepted and
the extrapolation silently fell back to linear.
---
 interpolation/splines/eval_splines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpolation/splines/eval_splines.py b/interpolation/splines/eval_splines.py
index 7e944a2..f98a6ba 100644
--- a/interpolation/splines/eval_splines.py
+++ b/interpolation/splines/eval_splines.py
@@ -204,6 +204,8 @@ def __eval_linear(grid, C, points, out, extrap_mode):
 
 @overload(_eval_linear, **overload_options)
 def __eval_linear(grid, C, points, out):
+    if not isinstance(out, (Array, none)):
+        return None
     return lambda grid, C, points, out: eval_spline(
         grid, C, points, out=out, k=1, diff="None", extrap_mode="linear"
     )
@@ -281,6 +283,8 @@ from numba import literally
 
 @overload(_eval_cubic, **overload_options)
 def __eval_cubic(grid, C, points, out):
+    if not isinstance(out, (Array, none)):
+        return None
     return lambda grid, C, points, out: eval_spline(
         grid,
         C,
-- 
2.43.0


From 0ba31ce8ba75a6636d7ee3a54a25369ed5d4d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 15/15] fix: mlinterp printed to standard output when it
 refused vector values

The message is part of the error now.
---
 interpolation/multilinear/fungen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/multilinear/fungen.py b/interpolation/multilinear/fungen.py
index a7a9ec1..47f61fb 100644
--- a/interpolation/multilinear/fungen.py
+++ b/interpolation/multilinear/fungen.py
@@ -188,7 +188,7 @@ def get_coeffs(X, I):
 @overload(get_coeffs)
 def ol_get_coeffs(X, I):
     if X.ndim > len(I):
-        print("not implemented yet")
+        raise numba.errors.TypingError("not implemented yet")
     else:
         from itertools import product
 
-- 
2.43.0

