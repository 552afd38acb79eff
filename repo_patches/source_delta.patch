From 865333f7bf7aca09e3ebaf9281375eca050cc95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:41 +0000
Subject: [PATCH 001/164] fix: SIS_TRUNCATED Hessian ignored the lens centre in
 dr/dx

---
 lenstronomy/LensModel/Profiles/sis_truncate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/sis_truncate.py b/lenstronomy/LensModel/Profiles/sis_truncate.py
index 9135f08..8be8892 100644
--- a/lenstronomy/LensModel/Profiles/sis_truncate.py
+++ b/lenstronomy/LensModel/Profiles/sis_truncate.py
@@ -109,7 +109,7 @@ class SIS_truncate(LensProfileBase):
         y_shift = y - center_y
         dphi_dr = self._dphi_dr(x_shift, y_shift, theta_E, r_trunc)
         d2phi_dr2 = self._d2phi_dr2(x_shift, y_shift, theta_E, r_trunc)
-        dr_dx, dr_dy = self._dr_dx(x, y)
+        dr_dx, dr_dy = self._dr_dx(x_shift, y_shift)
         d2r_dx2, d2r_dy2, d2r_dxy = self._d2r_dx2(x_shift, y_shift)
         f_xx = d2r_dx2 * dphi_dr + dr_dx**2 * d2phi_dr2
         f_yy = d2r_dy2 * dphi_dr + dr_dy**2 * d2phi_dr2
-- 
2.43.0


From 4a66609fe9688f8329a58a61b0d18865fffb636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:41 +0000
Subject: [PATCH 002/164] fix: SHAPELETS_POLAR deflection f_y had the wrong
 sign on its lowering terms

---
 lenstronomy/LensModel/Profiles/shapelet_pot_polar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py b/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py
index 706b9ca..9753d46 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py
@@ -200,10 +200,10 @@ class PolarShapelets(LensProfileBase):
                 output_y[nl + 1][nr] += a_lr * np.sqrt(nl + 1) / 2 * 1j
                 if nl > 0:
                     output_x[nl - 1][nr] += a_lr * np.sqrt(nl) / 2
-                    output_y[nl - 1][nr] -= a_lr * np.sqrt(nl) / 2 * 1j
+                    output_y[nl - 1][nr] += a_lr * np.sqrt(nl) / 2 * 1j
                 if nr > 0:
                     output_x[nl][nr - 1] += a_lr * np.sqrt(nr) / 2
-                    output_y[nl][nr - 1] += a_lr * np.sqrt(nr) / 2 * 1j
+                    output_y[nl][nr - 1] -= a_lr * np.sqrt(nr) / 2 * 1j
         return output_x / beta, output_y / beta  # attention complex numbers!!!!
 
     def _gammaShapelets(self, shapelets, beta):
-- 
2.43.0


From 10b67e12ee1a48dd97f7bfc8c5677a85ee47def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:41 +0000
Subject: [PATCH 003/164] fix: TNFW_ELLIPSE_POTENTIAL Hessian step of 1e-10
 lost all precision

---
 lenstronomy/LensModel/Profiles/tnfw_ellipse_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/tnfw_ellipse_potential.py b/lenstronomy/LensModel/Profiles/tnfw_ellipse_potential.py
index 93cb12a..1854d74 100644
--- a/lenstronomy/LensModel/Profiles/tnfw_ellipse_potential.py
+++ b/lenstronomy/LensModel/Profiles/tnfw_ellipse_potential.py
@@ -42,7 +42,7 @@ class TNFWELLIPSEPotential(LensProfileBase):
     def __init__(self):
         """"""
         self.tnfw = TNFW()
-        self._diff = 0.0000000001
+        self._diff = 0.000001
         super(TNFWELLIPSEPotential, self).__init__()
 
     def function(self, x, y, Rs, alpha_Rs, r_trunc, e1, e2, center_x=0, center_y=0):
-- 
2.43.0


From 9f2c4615610216325aaa261e452add14a1d42948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:44 +0000
Subject: [PATCH 004/164] fix: TNFW.mass_3d used r_trunc where the formula
 needs r_trunc/Rs

---
 lenstronomy/LensModel/Profiles/tnfw.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index 8c3e130..4464ffe 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -206,17 +206,18 @@ class TNFW(LensProfileBase):
 
         x = r * Rs**-1
         x = np.maximum(x, self._s)
+        tau = r_trunc * Rs**-1
         func = (
-            r_trunc**2
+            tau**2
             * (
-                -2 * x * (1 + r_trunc**2)
-                + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
-                - 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs)
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * (1 + x))
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * r_trunc)
-                - (1 + x) * (-1 + r_trunc**2) * np.log(Rs**2 * (x**2 + r_trunc**2))
+                -2 * x * (1 + tau**2)
+                + 4 * (1 + x) * tau * np.arctan(x / tau)
+                - 2 * (1 + x) * (-1 + tau**2) * np.log(Rs)
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * (1 + x))
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * tau)
+                - (1 + x) * (-1 + tau**2) * np.log(Rs**2 * (x**2 + tau**2))
             )
-        ) / (2.0 * (1 + x) * (1 + r_trunc**2) ** 2)
+        ) / (2.0 * (1 + x) * (1 + tau**2) ** 2)
 
         m_3d = 4 * np.pi * Rs**3 * rho0 * func
         return m_3d
-- 
2.43.0


From 06cc23be4e5f845288e431f7e5648623e2263510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:26 +0000
Subject: [PATCH 005/164] fix: MULTIPOLE_ELL near-round fallback ignored the
 reference angle

For q close to 1 the circular multipole was evaluated in the unrotated frame but
its deflection and Hessian were rotated back by phi_ref.
---
 lenstronomy/LensModel/Profiles/multipole.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/multipole.py b/lenstronomy/LensModel/Profiles/multipole.py
index 682caa0..a4ec0a0 100644
--- a/lenstronomy/LensModel/Profiles/multipole.py
+++ b/lenstronomy/LensModel/Profiles/multipole.py
@@ -227,7 +227,7 @@ class EllipticalMultipole(LensProfileBase):
         ):  # avoid numerical instability when q is too close to 1 by taking circular multipole solution
             sph_multipole = Multipole()
             f_ = sph_multipole.function(
-                x, y, m, a_m, varphi_m, center_x=center_x, center_y=center_y, r_E=r_E
+                r * np.cos(phi), r * np.sin(phi), m, a_m, varphi_m, r_E=r_E
             )
 
         else:
@@ -302,7 +302,7 @@ class EllipticalMultipole(LensProfileBase):
         ):  # avoid numerical instability when q is too close to 1 by taking circular multipole solution
             sph_multipole = Multipole()
             f_x, f_y = sph_multipole.derivatives(
-                x, y, m, a_m, varphi_m, center_x=center_x, center_y=center_y, r_E=r_E
+                r * np.cos(phi), r * np.sin(phi), m, a_m, varphi_m, r_E=r_E
             )
 
         else:
@@ -395,7 +395,7 @@ class EllipticalMultipole(LensProfileBase):
         ):  # avoid numerical instability when q is too close to 1 by taking circular multipole solution
             sph_multipole = Multipole()
             f_xx, f_xy, f_xy, f_yy = sph_multipole.hessian(
-                x, y, m, a_m, varphi_m, center_x=center_x, center_y=center_y, r_E=r_E
+                r * np.cos(phi), r * np.sin(phi), m, a_m, varphi_m, r_E=r_E
             )
 
         else:
-- 
2.43.0


From e26c37bebef3a2c80c36d194b7ff275d0112e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:26 +0000
Subject: [PATCH 006/164] fix: CURVED_ARC_CONST failed for scalar positions and
 returned NaN for y < -r

The array branch kept points beyond the negative side of the curvature circle and
a scalar position passed through LensModel (0-d array) could not be indexed.
---
 .../LensModel/Profiles/curved_arc_const.py       | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/curved_arc_const.py b/lenstronomy/LensModel/Profiles/curved_arc_const.py
index 3a22d3e..69b51c9 100644
--- a/lenstronomy/LensModel/Profiles/curved_arc_const.py
+++ b/lenstronomy/LensModel/Profiles/curved_arc_const.py
@@ -230,18 +230,10 @@ class CurvedArcConst(LensProfileBase):
         # evaluate
 
         # move x-coordinate to circle intercept with x-axis
-        if isinstance(x, int) or isinstance(x, float):
-            if abs(y__) > r:
-                f__x, f__y = 0, 0
-            else:
-                f__x, f__y = self._deflection(y__, r, tangential_stretch)
-
-        else:
-            f__x, f__y = np.zeros_like(x__), np.zeros_like(y__)
-            _y__ = y__[y__ <= r]
-            _f__x, _f__y = self._deflection(_y__, r, tangential_stretch)
-            f__x[y__ <= r] = _f__x
-            f__y[y__ <= r] = _f__y
+        # (no deflection outside the curvature radius, |y__| > r)
+        f__x, f__y = self._deflection(
+            np.where(np.abs(y__) <= r, y__, 0.0), r, tangential_stretch
+        )
 
         # rotate back
         f_x, f_y = util.rotate(f__x, f__y, -direction)
-- 
2.43.0


From dfffc4dfade949d94f5342ccdb9fc1616737c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:56 +0000
Subject: [PATCH 007/164] fix: NFW deflection function unstable within rounding
 of the scale radius

g(X) for X one rounding error below 1 was off by more than a factor of two
(arccosh(1/X)/sqrt(1-X^2) with both factors rounded).
---
 lenstronomy/LensModel/Profiles/nfw.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index 8cfd31d..1bdeee0 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -424,20 +424,24 @@ class NFW(LensProfileBase):
         if isinstance(X, int) or isinstance(X, float):
             if X < 1:
                 x = max(c, X)
-                a = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
+                s = np.sqrt((1 - x) * (1 + x))
+                a = np.log(x / 2.0) + np.arcsinh(s / x) / s
             elif X == 1:
                 a = 1 + np.log(1.0 / 2.0)
             else:  # X > 1:
-                a = np.log(X / 2) + 1 / np.sqrt(X**2 - 1) * np.arccos(1.0 / X)
+                s = np.sqrt((X - 1) * (X + 1))
+                a = np.log(X / 2) + np.arctan(s) / s
 
         else:
             a = np.empty_like(X)
             X[X <= c] = c
             x = X[X < 1]
-            a[X < 1] = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
+            s = np.sqrt((1 - x) * (1 + x))
+            a[X < 1] = np.log(x / 2.0) + np.arcsinh(s / x) / s
             a[X == 1] = 1 + np.log(1.0 / 2.0)
             x = X[X > 1]
-            a[X > 1] = np.log(x / 2) + 1 / np.sqrt(x**2 - 1) * np.arccos(1.0 / x)
+            s = np.sqrt((x - 1) * (x + 1))
+            a[X > 1] = np.log(x / 2) + np.arctan(s) / s
         return a
 
     def h_(self, X):
-- 
2.43.0


From d649cbbdd290e56c1ed2fde4b8d6614229e0ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:02 +0000
Subject: [PATCH 008/164] fix: apply source-redshift scaling and keep array
 shape when a single lens component is selected by index

---
 lenstronomy/LensModel/single_plane.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/lenstronomy/LensModel/single_plane.py b/lenstronomy/LensModel/single_plane.py
index 81aa8a6..3479b8b 100644
--- a/lenstronomy/LensModel/single_plane.py
+++ b/lenstronomy/LensModel/single_plane.py
@@ -92,8 +92,6 @@ class SinglePlane(ProfileListBase):
         y = np.array(y, dtype=float)
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            return np.asarray(self.func_list[k].function(x, y, **kwargs[k]))
         bool_list = self._bool_list(k)
         potential = np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -116,9 +114,6 @@ class SinglePlane(ProfileListBase):
         x = np.array(x, dtype=float)
         y = np.array(y, dtype=float)
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            f_x, f_y = self.func_list[k].derivatives(x, y, **kwargs[k])
-            return np.asarray(f_x), np.asarray(f_y)
         bool_list = self._bool_list(k)
         f_x, f_y = np.zeros_like(x), np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -148,15 +143,6 @@ class SinglePlane(ProfileListBase):
         y = np.array(y, dtype=float)
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            f_xx, f_xy, f_yx, f_yy = self.func_list[k].hessian(x, y, **kwargs[k])
-            return (
-                np.asarray(f_xx),
-                np.asarray(f_xy),
-                np.asarray(f_yx),
-                np.asarray(f_yy),
-            )
-
         bool_list = self._bool_list(k)
         f_xx, f_xy, f_yx, f_yy = (
             np.zeros_like(x),
-- 
2.43.0


From a7477eb8aae59da6af8656495bfb9590a518794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:02 +0000
Subject: [PATCH 009/164] fix: SHAPELETS_CART ignored the centre for scalar
 positions

---
 .../LensModel/Profiles/shapelet_pot_cartesian.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
index 5bedbd9..8470e05 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
@@ -28,7 +28,8 @@ class CartShapelets(LensProfileBase):
         n_order = self._get_num_n(len(coeffs))
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_ = self._shapeletOutput(x, y, beta, shapelets, precalc=False)
+            x_, y_ = x - center_x, y - center_y
+            f_ = self._shapeletOutput(x_, y_, beta, shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order, center_x, center_y)
             f_ = self._shapeletOutput(H_x, H_y, beta, shapelets)
@@ -42,8 +43,9 @@ class CartShapelets(LensProfileBase):
         dy_shapelets = self._dy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_x = self._shapeletOutput(x, y, beta, dx_shapelets, precalc=False)
-            f_y = self._shapeletOutput(x, y, beta, dy_shapelets, precalc=False)
+            x_, y_ = x - center_x, y - center_y
+            f_x = self._shapeletOutput(x_, y_, beta, dx_shapelets, precalc=False)
+            f_y = self._shapeletOutput(x_, y_, beta, dy_shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 1, center_x, center_y)
             f_x = self._shapeletOutput(H_x, H_y, beta, dx_shapelets)
@@ -60,9 +62,10 @@ class CartShapelets(LensProfileBase):
         dxy_shapelets = self._dxy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_xx = self._shapeletOutput(x, y, beta, dxx_shapelets, precalc=False)
-            f_yy = self._shapeletOutput(x, y, beta, dyy_shapelets, precalc=False)
-            f_xy = self._shapeletOutput(x, y, beta, dxy_shapelets, precalc=False)
+            x_, y_ = x - center_x, y - center_y
+            f_xx = self._shapeletOutput(x_, y_, beta, dxx_shapelets, precalc=False)
+            f_yy = self._shapeletOutput(x_, y_, beta, dyy_shapelets, precalc=False)
+            f_xy = self._shapeletOutput(x_, y_, beta, dxy_shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 2, center_x, center_y)
             f_xx = self._shapeletOutput(H_x, H_y, beta, dxx_shapelets)
-- 
2.43.0


From a439ace677f713a080ff142d0605578af7d8013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:02 +0000
Subject: [PATCH 010/164] fix: SERSIC lens potential raised for scalar
 positions

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 45d6ada..3511cc6 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -679,7 +679,7 @@ def hyper2F2_array(a, b, c, d, x):
     import mpmath
 
     if isinstance(x, int) or isinstance(x, float):
-        out = mpmath.hyp2f2(a, b, c, d, x)
+        out = float(mpmath.hyp2f2(a, b, c, d, x))
     else:
         n = len(x)
         out = np.zeros(n)
-- 
2.43.0


From b758bb09f066d5412e271991606ee3fa10d8fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:02 +0000
Subject: [PATCH 011/164] fix: NFW potential used another inner cut-off for
 scalars than for arrays

---
 lenstronomy/LensModel/Profiles/nfw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index 1bdeee0..b2a9f8f 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -479,7 +479,7 @@ class NFW(LensProfileBase):
         c = 0.000001
         if isinstance(X, int) or isinstance(X, float):
             if X < 1:
-                x = max(0.001, X)
+                x = max(c, X)
                 a = np.log(x / 2.0) ** 2 - np.arccosh(1.0 / x) ** 2
             else:  # X >= 1:
                 a = np.log(X / 2.0) ** 2 + np.arccos(1.0 / X) ** 2
-- 
2.43.0


From 30c72342c824d1c463bd955b5d1afbbdefb3f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 012/164] fix: hessian_z1z2 started rays at (theta_x, theta_x)
 instead of (theta_x, theta_y)

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 626d520..ee3efb6 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -586,7 +586,7 @@ class MultiPlane(object):
 
         T_0z1 = self._multi_plane_base._cosmo_bkg.T_xy(0, z1)
         x = theta_x * T_0z1
-        y = theta_x * T_0z1
+        y = theta_y * T_0z1
         x_s0, y_s0, _, _ = self.ray_shooting_partial_comoving(
             x=x,
             y=y,
-- 
2.43.0


From acc6cf7336c6e92a57a3824d7431973206a9eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 013/164] fix: observed-position convention used the distance
 of another plane for unsorted redshift lists

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index ee3efb6..f15016e 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -766,7 +766,9 @@ class LensedLocation(object):
                 T_ij_end=None,
             )
 
-            T = self._multiplane.T_z_list[ind]
+            # T_z_list is in the order of the sorted redshifts
+            ind_sorted = list(self._multiplane.sorted_redshift_index).index(ind)
+            T = self._multiplane.T_z_list[ind_sorted]
             new_kwargs[ind]["center_x"] = x / T
             new_kwargs[ind]["center_y"] = y / T
 
-- 
2.43.0


From 63ab6e65f00403cd8e713c670c5473cba4ce3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:04 +0000
Subject: [PATCH 014/164] fix: multi-plane delay used the distance of a plane
 behind the source and failed without deflectors in front of it

---
 .../LensModel/MultiPlane/multi_plane_base.py    | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
index deb1c8f..2fa2d5b 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
@@ -353,7 +353,7 @@ class MultiPlaneBase(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
 
-        i = 0
+        i_last = None
         z_lens_last = 0
         for i, index in enumerate(self._sorted_redshift_index):
             z_lens = self._lens_redshift_list[index]
@@ -379,6 +379,10 @@ class MultiPlaneBase(ProfileListBase):
 
                 dt_grav += dt_grav_new
                 z_lens_last = z_lens
+                i_last = i
+        if i_last is None:
+            # no deflector in front of z_stop, the ray is a straight line
+            return np.asarray(dt_geo), np.asarray(dt_grav)
         if T_ij_end is None:
             T_ij_end = self._cosmo_bkg.T_xy(z_lens_last, z_stop)
         T_ij = T_ij_end
@@ -386,13 +390,14 @@ class MultiPlaneBase(ProfileListBase):
         if T_z_stop is None:
             T_z_stop = self._cosmo_bkg.T_xy(0, z_stop)
         T_j = T_z_stop
-        T_i = self._T_z_list[i]
+        T_i = self._T_z_list[i_last]
         beta_i_x, beta_i_y = x / T_i, y / T_i
         beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
-        dt_geo_new = self._geometrical_delay(
-            beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
-        )
-        dt_geo += dt_geo_new
+        if T_ij > 0:
+            dt_geo_new = self._geometrical_delay(
+                beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
+            )
+            dt_geo += dt_geo_new
         return np.asarray(dt_geo), np.asarray(dt_grav)
 
     @staticmethod
-- 
2.43.0


From 83660e11a8f8afb0b8bf1f152a40e2a1028d004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:20 +0000
Subject: [PATCH 015/164] fix: RadialInterpolate kept interpolations of earlier
 parameters and mis-scaled the potential outside

---
 .../LensModel/Profiles/radial_interpolated.py | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/radial_interpolated.py b/lenstronomy/LensModel/Profiles/radial_interpolated.py
index af2f4d8..5442306 100644
--- a/lenstronomy/LensModel/Profiles/radial_interpolated.py
+++ b/lenstronomy/LensModel/Profiles/radial_interpolated.py
@@ -105,7 +105,7 @@ class RadialInterpolate(LensProfileBase):
         kappa = self._kappa_r_interp(r, r_bin, kappa_r)
         # shear in the spherical case is the average convergence enclosed minus the convergence at the radius
         # source: Kaiser 1995
-        gamma = 1 * (self._mass_enclosed(r, r_bin, kappa) / (np.pi * r**2) - kappa)
+        gamma = 1 * (self._mass_enclosed(r, r_bin, kappa_r) / (np.pi * r**2) - kappa)
         # turn in to vector for gamma and cartesian derivatives
         gamma1 = -np.cos(2.0 * phi) * gamma
         gamma2 = -np.sin(2.0 * phi) * gamma
@@ -137,6 +137,7 @@ class RadialInterpolate(LensProfileBase):
         :type kappa_r: array of same size as r_bin
         :return: kappa(r)
         """
+        self._check_cache(r_bin, kappa_r)
         if not hasattr(self, "_interp_kappa"):
             self._interp_kappa = interp1d(
                 r_bin,
@@ -157,6 +158,7 @@ class RadialInterpolate(LensProfileBase):
         :type kappa_r: array of same size as r_bin
         :return: integrated convergence within radius <r
         """
+        self._check_cache(r_bin, kappa_r)
         if not hasattr(self, "_interp_m_enclosed"):
             m_r = self._m_r(r_bin, kappa_r)
 
@@ -175,6 +177,7 @@ class RadialInterpolate(LensProfileBase):
         :type kappa_r: array of same size as r_bin
         :return: integrated convergence within radius <r
         """
+        self._check_cache(r_bin, kappa_r)
         if not hasattr(self, "_interp_m_enclosed_over_r"):
             m_r = self._m_r(r_bin, kappa_r)
             r_bin_ = np.maximum(r_bin, 10 ** (-10))
@@ -219,7 +222,8 @@ class RadialInterpolate(LensProfileBase):
         :type kappa_r: array of same size as r_bin
         :return: integrated convergence within radius <r
         """
-        if not hasattr(self, "_interp_potential"):
+        self._check_cache(r_bin, kappa_r)
+        if not hasattr(self, "_interp_potential_over_r2"):
 
             def _integrand(x):
                 return self.alpha(x, r_bin, kappa_r)
@@ -235,11 +239,28 @@ class RadialInterpolate(LensProfileBase):
             self._interp_potential_over_r2 = interp1d(
                 r_bin,
                 pot_r / r_bin_**2,
-                fill_value=(0, pot_r[-1]),
+                fill_value=(0, pot_r[-1] / r_bin_[-1] ** 2),
                 bounds_error=False,
             )
         return self._interp_potential_over_r2(r) * r**2
 
+    def _check_cache(self, r_bin, kappa_r):
+        """Deletes the pre-computed interpolations if they were made for a different
+        profile.
+
+        :param r_bin: radial bins for which convergence values are provided
+        :type r_bin: numpy array
+        :param kappa_r: convergence values corresponding to the r_bin radii
+        :type kappa_r: array of same size as r_bin
+        :return: None
+        """
+        cached = getattr(self, "_cached_profile", None)
+        if cached is None or not (
+            np.array_equal(cached[0], r_bin) and np.array_equal(cached[1], kappa_r)
+        ):
+            self.set_dynamic()
+            self._cached_profile = (np.array(r_bin), np.array(kappa_r))
+
     def set_dynamic(self):
         """
 
@@ -247,6 +268,8 @@ class RadialInterpolate(LensProfileBase):
         """
         if hasattr(self, "_interp_m_enclosed_over_r"):
             del self._interp_m_enclosed_over_r
+        if hasattr(self, "_interp_m_enclosed"):
+            del self._interp_m_enclosed
         if hasattr(self, "_interp_kappa"):
             del self._interp_kappa
         if hasattr(self, "_interp_potential_over_r2"):
-- 
2.43.0


From 5f09df8b6b028c39958c55c31bf84bc11588f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:20 +0000
Subject: [PATCH 016/164] fix: Chameleon.set_static while static used the
 previously fixed parameters

---
 lenstronomy/LensModel/Profiles/chameleon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/chameleon.py b/lenstronomy/LensModel/Profiles/chameleon.py
index 3b732e0..3e896b1 100644
--- a/lenstronomy/LensModel/Profiles/chameleon.py
+++ b/lenstronomy/LensModel/Profiles/chameleon.py
@@ -225,6 +225,8 @@ class Chameleon(LensProfileBase):
         :param center_y:
         :return:
         """
+        # the conversion has to be done with NIE profiles not fixed to other parameters
+        self.set_dynamic()
         self._static = True
         (
             self._theta_convert_static,
-- 
2.43.0


From a18cf0c6d98d4098a504508235fa7867befd0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:20 +0000
Subject: [PATCH 017/164] fix: change_source_redshift is refused for LOS
 flexion models as for LOS models

---
 lenstronomy/LensModel/lens_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/lens_model.py b/lenstronomy/LensModel/lens_model.py
index 61dd42e..cd58c99 100644
--- a/lenstronomy/LensModel/lens_model.py
+++ b/lenstronomy/LensModel/lens_model.py
@@ -151,7 +151,7 @@ class LensModel(object):
         # Multi-plane or single-plane lensing?
         self.multi_plane = multi_plane
         self._decouple_multi_plane = decouple_multi_plane
-        self._los_effects = los_effects
+        self._los_effects = los_effects or los_flexion_effects
         if multi_plane is True:
             if lens_redshift_list is None:
                 raise ValueError(
-- 
2.43.0


From fa40384867ed1f7735dffaa0f96f0018bbb67fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:49 +0000
Subject: [PATCH 018/164] fix: num_param_linear supports SERSIC_ELLIPSE_Q_PHI
 like the rest of the linear basis

---
 lenstronomy/LightModel/linear_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LightModel/linear_basis.py b/lenstronomy/LightModel/linear_basis.py
index 8e65696..2c5fd52 100644
--- a/lenstronomy/LightModel/linear_basis.py
+++ b/lenstronomy/LightModel/linear_basis.py
@@ -142,6 +142,7 @@ class LinearBasis(LightModelBase):
                 "SERSIC",
                 "SERSIC_ELLIPSE",
                 "SERSIC_ELLIPSE_FLEXION",
+                "SERSIC_ELLIPSE_Q_PHI",
                 "TRIPLE_CHAMELEON",
                 "UNIFORM",
             ]:
-- 
2.43.0


From 71905952e548138882d18d5513f55761ab936c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:49 +0000
Subject: [PATCH 019/164] fix: LINEAR light profile accepts scalar positions;
 LINEAR_ELLIPSE upper ellipticity limits

---
 lenstronomy/LightModel/Profiles/linear.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index 660ea77..487d7cf 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -41,8 +41,7 @@ class Linear(object):
         """
         dis = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
         f = amp * (k / amp * dis + 1)
-        f[f < 0] = 0
-        return f
+        return np.maximum(f, 0)
 
     def total_flux(self, amp, k, center_x=0, center_y=0):
         """Integrated flux of the profile.
@@ -75,8 +74,8 @@ class LinearEllipse(object):
     upper_limit_default = {
         "k": 1000,
         "amp": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From bf2edd600631721e82e4f55ff095821520d62ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 020/164] fix: shifting the coordinate system of a pixel grid
 also shifts its pixel coordinates

---
 lenstronomy/Data/pixel_grid.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lenstronomy/Data/pixel_grid.py b/lenstronomy/Data/pixel_grid.py
index d36b7c2..d6d7aef 100644
--- a/lenstronomy/Data/pixel_grid.py
+++ b/lenstronomy/Data/pixel_grid.py
@@ -53,6 +53,19 @@ class PixelGrid(Coordinates):
             self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
         return updated_bool
 
+    def shift_coordinate_system(self, x_shift, y_shift, pixel_unit=False):
+        """Shifts the coordinate system (and with it the pixel grid)
+
+        :param x_shift: shift in x (or RA)
+        :param y_shift: shift in y (or DEC)
+        :param pixel_unit: bool, if True, units of pixels in input, otherwise RA/DEC
+        :return: updated data class with change in coordinate system
+        """
+        Coordinates.shift_coordinate_system(
+            self, x_shift, y_shift, pixel_unit=pixel_unit
+        )
+        self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
+
     @property
     def num_pixel(self):
         """
-- 
2.43.0


From 50b59bcbd3b66374b21361e3e98eb2947acf25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 021/164] fix: super-sampled evaluation mask selects the
 sub-pixels of the selected pixels

---
 lenstronomy/ImSim/Numerics/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index df0cfce..c4d329b 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -284,7 +284,7 @@ class RegularGrid(Coordinates1D):
         :return: 1d array of equivalent mask in subgrid resolution
         """
         idex_sub = np.repeat(idex_mask, subgrid_res, axis=0)
-        idex_sub = util.array2image(idex_sub, nx=nx, ny=ny * subgrid_res)
+        idex_sub = util.array2image(idex_sub, nx=nx * subgrid_res, ny=ny)
         idex_sub = np.repeat(idex_sub, subgrid_res, axis=0)
         idex_sub = util.image2array(idex_sub)
         return idex_sub
-- 
2.43.0


From 899dd39f394cb88f8dcd1a10e8a16d96fab117c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 022/164] fix: super-sampled coordinate grids of non-square
 images

---
 lenstronomy/ImSim/Numerics/grid.py |  6 +++---
 lenstronomy/Util/util.py           | 14 ++++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index c4d329b..a425747 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -103,7 +103,7 @@ class AdaptiveGrid(Coordinates1D):
         array[self._low_res_indexes1d] = low_res_values
         array_low_res_partial = self._average_subgrid(supersampled_values)
         array[self._high_res_indexes1d] = array_low_res_partial
-        return util.array2image(array)
+        return util.array2image(array, self._nx, self._ny)
 
     def _high_res_image(self, supersampled_values):
         """
@@ -113,8 +113,8 @@ class AdaptiveGrid(Coordinates1D):
         """
         high_res = np.zeros(
             (
-                self._nx * self._supersampling_factor,
                 self._ny * self._supersampling_factor,
+                self._nx * self._supersampling_factor,
             )
         )
         count = 0
@@ -218,7 +218,7 @@ class RegularGrid(Coordinates1D):
         )
 
         x_grid_sub, y_grid_sub = util.make_subgrid(
-            self._x_grid, self._y_grid, self._supersampling_factor
+            self._x_grid, self._y_grid, self._supersampling_factor, nx=nx, ny=ny
         )
         self._ra_subgrid = x_grid_sub[self._compute_indexes]
         self._dec_subgrid = y_grid_sub[self._compute_indexes]
diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 3511cc6..d75d766 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -689,24 +689,26 @@ def hyper2F2_array(a, b, c, d, x):
 
 
 @export
-def make_subgrid(ra_coord, dec_coord, subgrid_res=2):
+def make_subgrid(ra_coord, dec_coord, subgrid_res=2, nx=0, ny=0):
     """Return a grid with subgrid resolution.
 
     :param ra_coord:
     :param dec_coord:
     :param subgrid_res:
+    :param nx: number of pixels in x-direction (default: square grid)
+    :param ny: number of pixels in y-direction (default: square grid)
     :return:
     """
-    ra_array = array2image(ra_coord)
-    dec_array = array2image(dec_coord)
-    n = len(ra_array)
+    ra_array = array2image(ra_coord, nx, ny)
+    dec_array = array2image(dec_coord, nx, ny)
+    n_y, n_x = ra_array.shape
     d_ra_x = ra_array[0][1] - ra_array[0][0]
     d_ra_y = ra_array[1][0] - ra_array[0][0]
     d_dec_x = dec_array[0][1] - dec_array[0][0]
     d_dec_y = dec_array[1][0] - dec_array[0][0]
 
-    ra_array_new = np.zeros((n * subgrid_res, n * subgrid_res))
-    dec_array_new = np.zeros((n * subgrid_res, n * subgrid_res))
+    ra_array_new = np.zeros((n_y * subgrid_res, n_x * subgrid_res))
+    dec_array_new = np.zeros((n_y * subgrid_res, n_x * subgrid_res))
     for i in range(0, subgrid_res):
         for j in range(0, subgrid_res):
             ra_array_new[i::subgrid_res, j::subgrid_res] = (
-- 
2.43.0


From 88f34e670b9f247f4fcc9ea916e14cb1c0d647a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 023/164] fix: adaptive grid accepts the documented 2d mask of
 evaluated pixels

---
 lenstronomy/ImSim/Numerics/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index a425747..2a73040 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -41,6 +41,8 @@ class AdaptiveGrid(Coordinates1D):
         self._x_grid, self._y_grid = self.coordinate_grid(nx, ny)
         if flux_evaluate_indexes is None:
             flux_evaluate_indexes = np.ones_like(self._x_grid, dtype=bool)
+        elif np.ndim(flux_evaluate_indexes) == 2:
+            flux_evaluate_indexes = util.image2array(flux_evaluate_indexes)
         supersampled_indexes1d = util.image2array(supersampling_indexes)
         self._high_res_indexes1d = (supersampled_indexes1d) & (flux_evaluate_indexes)
         self._low_res_indexes1d = (np.invert(supersampled_indexes1d)) & (
-- 
2.43.0


From d36180c91920eefa057b9d7f547ce8631298f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 024/164] fix: super-sampled coordinate grid is centred on the
 requested centre

---
 lenstronomy/Util/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index d75d766..9907d4a 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -303,10 +303,11 @@ def make_grid_with_coordtransform(
     if left_lower is True:
         ra_grid = matrix[:, 0] * delta_x
         dec_grid = matrix[:, 1] * delta_pix_eff
+        shift = (subgrid_res - 1) / (2.0 * subgrid_res) * delta_pix
     else:
         ra_grid = (matrix[:, 0] - (num_pix_eff - 1) / 2.0) * delta_x
         dec_grid = (matrix[:, 1] - (num_pix_eff - 1) / 2.0) * delta_pix_eff
-    shift = (subgrid_res - 1) / (2.0 * subgrid_res) * delta_pix
+        shift = 0.0
     ra_grid += -shift + center_ra
     dec_grid += -shift + center_dec
     ra_at_xy_0 = ra_grid[0]
-- 
2.43.0


From 5647874b0131b242f9c6b631b7ed490129c48a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 025/164] fix: refuse updated image data whose shape differs
 along one axis

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index 88a2ff3..c7491f3 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -142,7 +142,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
         :return: None
         """
         ny, nx = np.shape(image_data)
-        if not self._nx == nx and not self._ny == ny:
+        if not (self._nx == nx and self._ny == ny):
             raise ValueError(
                 "shape of new data %s %s must equal old data %s %s!"
                 % (nx, ny, self._nx, self._ny)
-- 
2.43.0


From aa5b4eb15f4ab987994a9122c47da7d715a5fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 026/164] fix: primary beam of a non-square image must have the
 shape of the image

---
 lenstronomy/Data/imaging_data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index c7491f3..b6ae3eb 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -116,8 +116,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
             flux_scaling=flux_scaling,
         )
         if antenna_primary_beam is not None:
-            pbx, pby = np.shape(antenna_primary_beam)
-            if (pbx, pby) != (nx, ny):
+            if np.shape(antenna_primary_beam) != (ny, nx):
                 raise ValueError(
                     "The primary beam should have the same size with the image data!"
                 )
-- 
2.43.0


From a7c602517e3a9c6d76ab9a44dc54d3bd76d07db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 027/164] fix: do not clip the caller's exposure map in place

---
 lenstronomy/Data/image_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/image_noise.py b/lenstronomy/Data/image_noise.py
index a0ef6a8..3695766 100644
--- a/lenstronomy/Data/image_noise.py
+++ b/lenstronomy/Data/image_noise.py
@@ -42,7 +42,7 @@ class ImageNoise(object):
                 if exposure_time <= 10 ** (-10):
                     exposure_time = 10 ** (-10)
             else:
-                exposure_time[exposure_time <= 10 ** (-10)] = 10 ** (-10)
+                exposure_time = np.maximum(exposure_time, 10 ** (-10))
         self._exp_map = exposure_time
         self._background_rms = background_rms
         self._noise_map = noise_map
-- 
2.43.0


From 19a397b4a9bde41925d68927fb412ba299feda2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:48 +0000
Subject: [PATCH 028/164] fix: re-bin by the requested bin size when the image
 is not a multiple of it

---
 lenstronomy/Util/image_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/image_util.py b/lenstronomy/Util/image_util.py
index 1983e27..56387ec 100644
--- a/lenstronomy/Util/image_util.py
+++ b/lenstronomy/Util/image_util.py
@@ -245,7 +245,7 @@ def rebin_image(bin_size, image, wht_map, sigma_bkg, ra_coords, dec_coords, idex
     """
     num_pix = int(len(image) / bin_size)
     num_pix_precut = num_pix * bin_size
-    factor = int(len(image) / num_pix)
+    factor = int(bin_size)
     if not num_pix * bin_size == len(image):
         image_precut = image[0:num_pix_precut, 0:num_pix_precut]
     else:
-- 
2.43.0


From 8d949867f94398f0bc5392f982c1cd2628d72646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 029/164] fix: normalising a kernel does not change the kernel
 that was passed in

---
 lenstronomy/Util/kernel_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 98c76d4..ef60239 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -128,8 +128,7 @@ def kernel_norm(kernel):
     :return: normalisation of the psf kernel
     """
     norm = np.sum(np.array(kernel))
-    kernel /= norm
-    return kernel
+    return kernel / norm
 
 
 @export
-- 
2.43.0


From ceba314874845965883dd222124427e4ea96ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 030/164] fix: degrade kernels of any odd size by an odd factor

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index ef60239..eab680c 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -439,7 +439,7 @@ def degrade_kernel(kernel_super, degrading_factor):
 def averaging_odd_kernel(kernel_super, degrading_factor):
     """"""
     n_kernel = len(kernel_super)
-    num_pix = int(round(n_kernel / degrading_factor))
+    num_pix = int(np.ceil(n_kernel / degrading_factor))
     if num_pix % 2 == 0:
         num_pix += 1
     n_high = num_pix * degrading_factor
-- 
2.43.0


From 2399e10a6cfec83c3ef7f6ab294b67ed2b963726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 031/164] fix: pixel-averaged kernel is centred for even
 super-sampling factors

---
 lenstronomy/Util/kernel_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index eab680c..c893179 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -284,9 +284,9 @@ def kernel_average_pixel(kernel_super, supersampling_factor):
         n_high += 1
     kernel_pixel = np.zeros((n_high, n_high))
     for i in range(supersampling_factor):
-        k_x = int((kernel_size - 1) / 2 * supersampling_factor + i)
+        k_x = (n_high - 1) / 2 + i - (supersampling_factor - 1) / 2
         for j in range(supersampling_factor):
-            k_y = int((kernel_size - 1) / 2 * supersampling_factor + j)
+            k_y = (n_high - 1) / 2 + j - (supersampling_factor - 1) / 2
             kernel_pixel = image_util.add_layer2image(
                 kernel_pixel, k_x, k_y, kernel_super
             )
-- 
2.43.0


From 04e726dc0b5c9465321ab22adc53fdb28ab23e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 032/164] fix: super-sampled PSF does not depend on which
 factors were requested before

---
 lenstronomy/Data/psf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 6602610..c24ad07 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -78,6 +78,7 @@ class PSF(object):
                 kernel_point_source_ = copy.deepcopy(kernel_point_source)
             if kernel_point_source_normalisation is True:
                 kernel_point_source_ /= np.sum(kernel_point_source_)
+            self._kernel_point_source_supersampled_init = kernel_point_source_
             if point_source_supersampling_factor > 1:
                 self._kernel_point_source_supersampled = kernel_point_source_
                 self._point_source_supersampling_factor = (
@@ -177,11 +178,13 @@ class PSF(object):
         ):
             kernel_point_source_supersampled = self._kernel_point_source_supersampled
             return kernel_point_source_supersampled
-        if hasattr(self, "_kernel_point_source_init") and hasattr(
+        if hasattr(self, "_kernel_point_source_supersampled_init") and hasattr(
             self, "_point_source_supersampling_factor_init"
         ):
             if self._point_source_supersampling_factor_init == supersampling_factor:
-                kernel_point_source_supersampled = self._kernel_point_source_init
+                kernel_point_source_supersampled = (
+                    self._kernel_point_source_supersampled_init
+                )
                 return kernel_point_source_supersampled
 
         if self.psf_type == "GAUSSIAN":
-- 
2.43.0


From ca6a323412fb7713a73651395b75d084ca312b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 033/164] fix: changing the pixel size of a Gaussian PSF also
 renews its super-sampled kernel

---
 lenstronomy/Data/psf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index c24ad07..5d2ed0e 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -248,10 +248,14 @@ class PSF(object):
         """
         self._pixel_size = delta_pix
         if self.psf_type == "GAUSSIAN":
-            try:
-                del self._kernel_point_source
-            except:
-                pass
+            # kernels that were computed for the previous pixel size
+            for kernel_name in [
+                "_kernel_point_source",
+                "_kernel_pixel",
+                "_kernel_point_source_supersampled",
+            ]:
+                if hasattr(self, kernel_name):
+                    delattr(self, kernel_name)
 
     @property
     def psf_variance_map(self):
-- 
2.43.0


From 44c7d6efb15f783ddb410f563a2fb255958661d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 034/164] fix: cached FFT convolution of images of another size

---
 lenstronomy/ImSim/Numerics/convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/convolution.py b/lenstronomy/ImSim/Numerics/convolution.py
index 1dc27ef..d8b38be 100644
--- a/lenstronomy/ImSim/Numerics/convolution.py
+++ b/lenstronomy/ImSim/Numerics/convolution.py
@@ -81,7 +81,7 @@ class PixelKernelConvolution(object):
         """
         in1 = image
         in1 = np.asarray(in1)
-        if self._pre_computed is False:
+        if self._pre_computed is False or in1.shape != tuple(self._s1):
             (
                 self._s1,
                 self._s2,
-- 
2.43.0


From 6980341f9596441753352f1a30846d45ab031d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 035/164] fix: adaptive convolution with a super-sampled kernel
 smaller than the requested size

---
 lenstronomy/ImSim/Numerics/adaptive_numerics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/Numerics/adaptive_numerics.py b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
index 0d4b878..0ee8f29 100644
--- a/lenstronomy/ImSim/Numerics/adaptive_numerics.py
+++ b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
@@ -56,6 +56,7 @@ class AdaptiveConvolution(object):
         n_cut_super = supersampling_kernel_size * supersampling_factor
         if n_cut_super % 2 == 0:
             n_cut_super += 1
+        n_cut_super = min(n_cut_super, len(kernel_super))
         kernel_super_cut = image_util.cut_edges(kernel_super, n_cut_super)
         kernel_cut = kernel_util.degrade_kernel(
             kernel_super_cut, degrading_factor=supersampling_factor
-- 
2.43.0


From 956bb207c444d1cafdfe59650dcf8335c4edc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:12 +0000
Subject: [PATCH 036/164] fix: masked convolution and point source rendering on
 non-square images

---
 lenstronomy/ImSim/Numerics/numerics.py               | 2 +-
 lenstronomy/ImSim/Numerics/partial_image.py          | 2 +-
 lenstronomy/ImSim/Numerics/point_source_rendering.py | 4 ++--
 lenstronomy/Util/kernel_util.py                      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/numerics.py b/lenstronomy/ImSim/Numerics/numerics.py
index 5269ee7..8b3dc4e 100644
--- a/lenstronomy/ImSim/Numerics/numerics.py
+++ b/lenstronomy/ImSim/Numerics/numerics.py
@@ -80,7 +80,7 @@ class Numerics(PointSourceRendering):
         transform_pix2angle = pixel_grid.transform_pix2angle
         ra_at_xy_0, dec_at_xy_0 = pixel_grid.radec_at_xy_0
         if supersampled_indexes is None:
-            supersampled_indexes = np.zeros((nx, ny), dtype=bool)
+            supersampled_indexes = np.zeros((ny, nx), dtype=bool)
         if (
             compute_mode == "adaptive"
         ):  # or (compute_mode == 'regular' and supersampling_convolution is False and supersampling_factor > 1):
diff --git a/lenstronomy/ImSim/Numerics/partial_image.py b/lenstronomy/ImSim/Numerics/partial_image.py
index e565721..c6a37be 100644
--- a/lenstronomy/ImSim/Numerics/partial_image.py
+++ b/lenstronomy/ImSim/Numerics/partial_image.py
@@ -14,7 +14,7 @@ class PartialImage(object):
         :param partial_read_bools: 2d numpy array of bools indicating which indexes to be processed
         """
         self._partial_read_bools = np.array(partial_read_bools, dtype=bool)
-        self._nx, self._ny = np.shape(partial_read_bools)
+        self._ny, self._nx = np.shape(partial_read_bools)
         self._partial_read_bools_array = util.image2array(partial_read_bools)
         self._num_partial = int(np.sum(self._partial_read_bools_array))
 
diff --git a/lenstronomy/ImSim/Numerics/point_source_rendering.py b/lenstronomy/ImSim/Numerics/point_source_rendering.py
index 49b37ab..c3a708d 100644
--- a/lenstronomy/ImSim/Numerics/point_source_rendering.py
+++ b/lenstronomy/ImSim/Numerics/point_source_rendering.py
@@ -44,7 +44,7 @@ class PointSourceRendering(object):
         else:
             kernel_point_source_subgrid = self._kernel_supersampled
         # initialize grid with higher resolution
-        subgrid2d = np.zeros((self._nx * subgrid, self._ny * subgrid))
+        subgrid2d = np.zeros((self._ny * subgrid, self._nx * subgrid))
         # add_layer2image
         if len(x_pos) > len(amp):
             raise ValueError(
@@ -123,7 +123,7 @@ class PointSourceRendering(object):
         # render the unconvolved point source using a PSF of [[0, 0, 0], [0, 1, 0], [0, 0, 0]].
         kernel_point_source_for_unconcolved_image = np.zeros((3, 3))
         kernel_point_source_for_unconcolved_image[1, 1] = 1
-        grid2d = np.zeros((self._nx, self._ny))
+        grid2d = np.zeros((self._ny, self._nx))
         # add_layer2image
         if len(x_pos) > len(amp):
             raise ValueError(
diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index c893179..2424c31 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -584,7 +584,7 @@ def estimate_amp(data, x_pos, y_pos, psf_kernel):
     :param psf_kernel:
     :return:
     """
-    num_pix_x, num_pix_y = np.shape(data)
+    num_pix_y, num_pix_x = np.shape(data)
     x_int = int(round(x_pos - 0.49999))
     y_int = int(round(y_pos - 0.49999))
     # TODO: make amplitude estimate not susceptible to rounding effects on which pixels to chose to estimate the amplitude
-- 
2.43.0


From 63168fce7dd1b22059d4c3135382b1c409c0bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:34 +0000
Subject: [PATCH 037/164] fix: PSF variance of several point sources uses the
 amplitude of each one

---
 lenstronomy/ImSim/Numerics/point_source_rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/point_source_rendering.py b/lenstronomy/ImSim/Numerics/point_source_rendering.py
index c3a708d..742724f 100644
--- a/lenstronomy/ImSim/Numerics/point_source_rendering.py
+++ b/lenstronomy/ImSim/Numerics/point_source_rendering.py
@@ -90,7 +90,7 @@ class PointSourceRendering(object):
         variance_map = np.zeros_like(data)
         for i in range(len(x_pos)):
             if fix_psf_variance_map is True:
-                amp_estimated = amp
+                amp_estimated = amp if np.isscalar(amp) else amp[i]
             else:
                 amp_estimated = kernel_util.estimate_amp(
                     data, x_pos[i], y_pos[i], psf_kernel
-- 
2.43.0


From 1251e9cb1bbe0db055d16f583dcc95382c20ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:34 +0000
Subject: [PATCH 038/164] fix: PSF error map of non-square images

---
 lenstronomy/ImSim/image_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index eaf0213..64a7bc6 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -820,7 +820,7 @@ class ImageModel(object):
         :param kwargs_special: special parameter keyword arguments
         :return: 2d array of size of the image
         """
-        error_map = np.zeros(self.Data.num_pixel_axes)
+        error_map = np.zeros(np.shape(self.Data.data))
         if self._psf_error_map is True:
             for k, bool_ in enumerate(self._psf_error_map_bool_list):
                 if bool_ is True:
-- 
2.43.0


From baf93462dd56a1972a529d1380bb16caa0ef40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:34 +0000
Subject: [PATCH 039/164] fix: sub-frame computation evaluates the sky
 positions of the selected pixels

---
 lenstronomy/ImSim/Numerics/numerics_subframe.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/numerics_subframe.py b/lenstronomy/ImSim/Numerics/numerics_subframe.py
index 2d450ff..a4707f6 100644
--- a/lenstronomy/ImSim/Numerics/numerics_subframe.py
+++ b/lenstronomy/ImSim/Numerics/numerics_subframe.py
@@ -132,10 +132,10 @@ class NumericsSubFrame(PointSourceRendering):
         :return: 2d numpy array of size of image with added zeros on their edges
         """
         if self._subframe_calc is True:
-            image = np.zeros((self._nx, self._ny))
+            image = np.zeros((self._ny, self._nx))
             image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ] = image_sub_frame
         else:
             image = image_sub_frame
@@ -149,10 +149,11 @@ class NumericsSubFrame(PointSourceRendering):
             self._x_max_sub, self._y_max_sub = self._nx, self._ny
         else:
             self._subframe_calc = True
-            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
-            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
-            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
-            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            # images are indexed as [y, x]
+            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
+            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
+            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
 
     def _cut_frame(self, image):
         """
@@ -162,8 +163,8 @@ class NumericsSubFrame(PointSourceRendering):
         """
         if self._subframe_calc is True and image is not None:
             return image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ]
         else:
             return image
-- 
2.43.0


From 8c96fb9055d481566cec10594bfb474ae4fed2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:17 +0000
Subject: [PATCH 040/164] fix: ImageModel images of non-square frames have
 shape (ny, nx)

---
 lenstronomy/ImSim/image_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 64a7bc6..978600b 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -88,7 +88,7 @@ class ImageModel(object):
         )
         self._psf_error_map = self.PSF.psf_variance_map_bool
         if likelihood_mask is None:
-            likelihood_mask = np.ones(data_class.num_pixel_axes)
+            likelihood_mask = np.ones(data_class.num_pixel_axes[::-1])
         self.likelihood_mask = np.array(likelihood_mask, dtype=bool)
         self._mask1d = util.image2array(self.likelihood_mask)
 
@@ -299,7 +299,7 @@ class ImageModel(object):
             kwargs_special=kwargs_special, model_index=self.image_index
         )
         if len(self.SourceModel.profile_type_list) == 0:
-            return np.zeros(self.Data.num_pixel_axes)
+            return np.zeros(self.Data.num_pixel_axes[::-1])
         if self._pixelbased_bool is True:
             return self._source_surface_brightness_pixelbased(
                 kwargs_source,
@@ -568,7 +568,7 @@ class ImageModel(object):
         self.update_pixel_grid_coordinates(
             kwargs_special=kwargs_special, model_index=self.image_index
         )
-        point_source_image = np.zeros((self.Data.num_pixel_axes))
+        point_source_image = np.zeros(self.Data.num_pixel_axes[::-1])
         if self.PointSource is None:
             return point_source_image
         ra_pos, dec_pos, amp = self.PointSource.point_source_list(
@@ -629,7 +629,7 @@ class ImageModel(object):
         self.update_pixel_grid_coordinates(
             kwargs_special=kwargs_special, model_index=self.image_index
         )
-        model = np.zeros(self.Data.num_pixel_axes)
+        model = np.zeros(self.Data.num_pixel_axes[::-1])
         if source_add is True:
             model += ImageModel.source_surface_brightness(
                 self,
-- 
2.43.0


From a93c7b91e3f389bb16deb5f90992a295e5fb428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:17 +0000
Subject: [PATCH 041/164] fix: remove debug print from extinction_map

---
 lenstronomy/ImSim/image_model.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 978600b..a6b12fb 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -676,7 +676,6 @@ class ImageModel(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        print(extinction, "test extinction")
         extinction_array = np.ones_like(ra_grid) * extinction
         extinction = (
             self.ImageNumerics.re_size_convolve(extinction_array, unconvolved=True)
-- 
2.43.0


From 3a14f869736e502919386592b9cd6291e6bd568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:17 +0000
Subject: [PATCH 042/164] fix: ImageModel.update_data evaluates the model on
 the new data grid

---
 lenstronomy/ImSim/image_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index a6b12fb..93ed423 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -742,7 +742,13 @@ class ImageModel(object):
         :return: no return. Class is updated.
         """
         self.Data = data_class
-        self.ImageNumerics._PixelGrid = data_class
+        self._flux_scaling = getattr(data_class, "flux_scaling", 1)
+        self._pb = getattr(data_class, "primary_beam", None)
+        self._pb_1d = util.image2array(self._pb) if self._pb is not None else None
+        self.PSF.set_pixel_size(self.Data.pixel_width)
+        self.ImageNumerics = NumericsSubFrame(
+            pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
+        )
 
     @property
     def num_data_evaluate(self):
-- 
2.43.0


From f207104a40362fd727033efe921429eb58ecbde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:17 +0000
Subject: [PATCH 043/164] fix: select source components by model index with
 several source planes

---
 lenstronomy/ImSim/image2source_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 2cb55e3..da5f8d1 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -269,7 +269,7 @@ class Image2SourceMapping(object):
                     scale_factor = self._deflection_scaling_list[i]
                     x_source = x - x_alpha * scale_factor
                     y_source = y - y_alpha * scale_factor
-                    if k is None or k == i:
+                    if k is None or i in np.atleast_1d(k):
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=i
                         )
@@ -301,7 +301,7 @@ class Image2SourceMapping(object):
                             T_ij_end=T_ij_end,
                         )
 
-                    if k is None or k == i:
+                    if k is None or index_source in np.atleast_1d(k):
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=index_source
                         )
-- 
2.43.0


From fe1421b34df50cc3f289faaa59aaa242e95bb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:17 +0000
Subject: [PATCH 044/164] fix: differential extinction without special
 parameters

---
 lenstronomy/ImSim/differential_extinction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/differential_extinction.py b/lenstronomy/ImSim/differential_extinction.py
index ccd03a1..96fd3ea 100644
--- a/lenstronomy/ImSim/differential_extinction.py
+++ b/lenstronomy/ImSim/differential_extinction.py
@@ -53,6 +53,8 @@ class DifferentialExtinction(object):
         if self._compute_bool is False or kwargs_extinction is None:
             return 1
         tau = self._profile.surface_brightness(x, y, kwargs_list=kwargs_extinction)
+        if kwargs_special is None:
+            kwargs_special = {}
         tau0_list = kwargs_special.get("tau0_list", None)
         if tau0_list is not None:
             tau0 = tau0_list[self._tau0_index]
-- 
2.43.0


From c32c5f8df8a114bb2eef4baaaf85b051553428b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 045/164] fix: per-band profile settings follow the per-band
 model selection

---
 lenstronomy/Util/class_creator.py | 43 ++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 6ace033..a3b619b 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -144,7 +144,11 @@ def create_class_instances(
         lens_model_list_i = lens_model_list
         lens_redshift_list_i = lens_redshift_list
         observed_convention_index_i = observed_convention_index
+        lens_profile_kwargs_list_i = lens_profile_kwargs_list
     else:
+        lens_profile_kwargs_list_i = _select_index(
+            lens_profile_kwargs_list, index_lens_model_list[band_index]
+        )
         lens_model_list_i = [
             lens_model_list[k] for k in index_lens_model_list[band_index]
         ]
@@ -176,7 +180,7 @@ def create_class_instances(
         cosmology_sampling=cosmology_sampling,
         cosmology_model=cosmology_model,
         observed_convention_index=observed_convention_index_i,
-        profile_kwargs_list=lens_profile_kwargs_list,
+        profile_kwargs_list=lens_profile_kwargs_list_i,
         decouple_multi_plane=decouple_multi_plane,
         kwargs_multiplane_model=kwargs_multiplane_model,
     )
@@ -187,11 +191,11 @@ def create_class_instances(
             z_lens=z_lens,
             z_source=z_source,
             z_source_convention=z_source_convention,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_i,
             multi_plane=multi_plane,
             cosmo=cosmo,
-            observed_convention_index=observed_convention_index,
-            profile_kwargs_list=lens_profile_kwargs_list,
+            observed_convention_index=observed_convention_index_i,
+            profile_kwargs_list=lens_profile_kwargs_list_i,
             decouple_multi_plane=decouple_multi_plane,
             kwargs_multiplane_model=kwargs_multiplane_model_point_source,
         )
@@ -202,7 +206,11 @@ def create_class_instances(
         source_light_model_list_i = source_light_model_list
         source_deflection_scaling_list_i = source_deflection_scaling_list
         source_redshift_list_i = source_redshift_list
+        source_light_profile_kwargs_list_i = source_light_profile_kwargs_list
     else:
+        source_light_profile_kwargs_list_i = _select_index(
+            source_light_profile_kwargs_list, index_source_light_model_list[band_index]
+        )
         source_light_model_list_i = [
             source_light_model_list[k]
             for k in index_source_light_model_list[band_index]
@@ -225,18 +233,22 @@ def create_class_instances(
         light_model_list=source_light_model_list_i,
         deflection_scaling_list=source_deflection_scaling_list_i,
         source_redshift_list=source_redshift_list_i,
-        profile_kwargs_list=source_light_profile_kwargs_list,
+        profile_kwargs_list=source_light_profile_kwargs_list_i,
     )
 
     if index_lens_light_model_list is None or all_models is True:
         lens_light_model_list_i = lens_light_model_list
+        lens_light_profile_kwargs_list_i = lens_light_profile_kwargs_list
     else:
+        lens_light_profile_kwargs_list_i = _select_index(
+            lens_light_profile_kwargs_list, index_lens_light_model_list[band_index]
+        )
         lens_light_model_list_i = [
             lens_light_model_list[k] for k in index_lens_light_model_list[band_index]
         ]
     lens_light_model_class = LightModel(
         light_model_list=lens_light_model_list_i,
-        profile_kwargs_list=lens_light_profile_kwargs_list,
+        profile_kwargs_list=lens_light_profile_kwargs_list_i,
     )
 
     point_source_model_list_i = point_source_model_list
@@ -296,11 +308,16 @@ def create_class_instances(
             optical_depth_model_list[k]
             for k in index_optical_depth_model_list[band_index]
         ]
+        optical_depth_profile_kwargs_list_i = _select_index(
+            optical_depth_profile_kwargs_list,
+            index_optical_depth_model_list[band_index],
+        )
     else:
         optical_depth_model_list_i = optical_depth_model_list
+        optical_depth_profile_kwargs_list_i = optical_depth_profile_kwargs_list
     extinction_class = DifferentialExtinction(
         optical_depth_model=optical_depth_model_list_i,
-        profile_kwargs_list=optical_depth_profile_kwargs_list,
+        profile_kwargs_list=optical_depth_profile_kwargs_list_i,
         tau0_index=tau0_index,
     )
     return (
@@ -312,6 +329,18 @@ def create_class_instances(
     )
 
 
+def _select_index(item_list, index_list):
+    """Selects the entries of a list of settings that belong to the selected models.
+
+    :param item_list: list with one entry per model (or None)
+    :param index_list: list of indexes of the selected models
+    :return: list of selected entries (or None)
+    """
+    if item_list is None:
+        return None
+    return [item_list[k] for k in index_list]
+
+
 @export
 def create_image_model(
     kwargs_data, kwargs_psf, kwargs_numerics, kwargs_model, image_likelihood_mask=None
-- 
2.43.0


From d968b7efe19025e538394ac5e31d50f5285d49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 046/164] fix: SingleBandMultiModel applies the coordinate
 offsets of its own band

---
 lenstronomy/ImSim/MultiBand/single_band_multi_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
index 746f001..5a000a3 100644
--- a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
+++ b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
@@ -103,6 +103,7 @@ class SingleBandMultiModel(ImageLinearFit, ImageModel):
             likelihood_mask=likelihood_mask_list[band_index],
             kwargs_pixelbased=kwargs_pixelbased,
         )
+        self.image_index = band_index
 
     def image(
         self,
-- 
2.43.0


From b9fca62a6337559a27a6221c5064e8ca979fce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:24 +0000
Subject: [PATCH 047/164] fix: sources at one redshift in front of the lens
 model's source redshift are traced to their own redshift

---
 lenstronomy/ImSim/image2source_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index da5f8d1..bb8d3ea 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -87,8 +87,8 @@ class Image2SourceMapping(object):
                         "the one specified in the lens model."
                     )
 
-            # turn off multi source plane if all sources are at the same redshift
-            if len(list(set(self._source_redshift_list))) == 1:
+            # turn off multi source plane if all sources are at the source redshift of the lens model
+            if set(self._source_redshift_list) == {self._lens_model.z_source}:
                 self._multi_source_plane = False
                 self._sorted_source_redshift_index = [0]
             else:
-- 
2.43.0


From 7ea1d2852500798f61628cb9b549ca062ee9bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 048/164] fix: SOURCE_POSITION amplitudes neither scale the
 caller's point_amp in place nor drop the solver settings

---
 lenstronomy/PointSource/Types/source_position.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 4a82889..1f792e2 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -100,7 +100,7 @@ class SourcePositions(PSBase):
                     kwargs_ps,
                     kwargs_lens=kwargs_lens,
                     magnification_limit=magnification_limit,
-                    **kwargs_lens_eqn_solver
+                    kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
@@ -110,8 +110,7 @@ class SourcePositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         mag_pert = kwargs_ps.get("mag_pert", 1)
         mag_pert = _shrink_array(mag_pert, len(point_amp))
-        point_amp *= np.array(mag_pert)
-        return np.array(point_amp)
+        return np.array(point_amp) * np.array(mag_pert)
 
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
-- 
2.43.0


From 8e3d2f2b0515c6659dc24fef832f6918cdbc43a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 049/164] fix: SOURCE_POSITION source amplitude uses the
 absolute magnification

---
 lenstronomy/PointSource/Types/source_position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 1f792e2..f5326f5 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -129,5 +129,5 @@ class SourcePositions(PSBase):
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
-            source_amp = np.mean(np.array(point_amp) / np.array(mag))
+            source_amp = np.mean(np.array(point_amp) / np.abs(mag))
         return np.array(source_amp)
-- 
2.43.0


From ea47bbddfb31db8783ed1d85b3a872c8d67e46b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 050/164] fix: width_search_factor widens the point-source
 search window

---
 lenstronomy/PointSource/point_source.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index dc06ee5..0a802c6 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -269,9 +269,7 @@ class PointSource(object):
         """
         x_image_list = []
         y_image_list = []
-        if width_search_factor != 1 and hasattr(
-            self._kwargs_lens_eqn_solver, "search_window"
-        ):
+        if width_search_factor != 1 and "search_window" in self._kwargs_lens_eqn_solver:
             kwargs_lens_eqn_solver = copy.deepcopy(self._kwargs_lens_eqn_solver)
             kwargs_lens_eqn_solver["search_window"] *= width_search_factor
         else:
-- 
2.43.0


From 65833265dbc2fb73742e2b5afff17a7c765d9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 051/164] fix: image amplitudes respect the magnification limit
 of the image positions

---
 lenstronomy/PointSource/point_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 0a802c6..735037c 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -370,6 +370,7 @@ class PointSource(object):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
+                    magnification_limit=self._magnification_limit,
                     kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
                 )
                 if self._flux_from_point_source_list[i]:
-- 
2.43.0


From 3fba36d5b5a572c34b0d8f02828c9fbd677db689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 052/164] fix: PointSource does not write the search window
 into the caller's solver settings

---
 lenstronomy/PointSource/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 735037c..7c50d48 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -127,7 +127,7 @@ class PointSource(object):
                 )
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
-        self._kwargs_lens_eqn_solver = kwargs_lens_eqn_solver
+        self._kwargs_lens_eqn_solver = dict(kwargs_lens_eqn_solver)
         self._magnification_limit = magnification_limit
         self._save_cache = save_cache
 
-- 
2.43.0


From 0932628b84f0424ac52a9face4e2c9ac880434d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 053/164] fix: point-source linear response uses the redshift
 and perturbations of its own source

---
 lenstronomy/PointSource/point_source.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 7c50d48..59b7a87 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -416,20 +416,19 @@ class PointSource(object):
             if self._flux_from_point_source_list[i]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
+                kwargs_ps_i = kwargs_ps
+                if not with_amp:
+                    # response of this model to unit amplitude(s)
+                    kwargs_ps_i = list(kwargs_ps)
+                    kwargs_ps_i[i] = dict(
+                        kwargs_ps[i], source_amp=1.0, point_amp=np.ones(len(x_pos))
+                    )
+                mag = self.image_amplitude(kwargs_ps_i, kwargs_lens, k=i)[0]
                 if self._fixed_magnification_list[i]:
                     ra_pos.append(list(x_pos))
                     dec_pos.append(list(y_pos))
-                    if with_amp:
-                        mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
-                    else:
-                        mag = self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
-                        mag = np.abs(mag)
                     amp.append(list(mag))
                 else:
-                    if with_amp:
-                        mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
-                    else:
-                        mag = np.ones_like(x_pos)
                     for j in range(len(x_pos)):
                         ra_pos.append([x_pos[j]])
                         dec_pos.append([y_pos[j]])
-- 
2.43.0


From e131a49d3daccaac60ad753dabcfb4bad5a78dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 054/164] fix: a not-a-number imaging likelihood is replaced by
 the documented penalty

---
 lenstronomy/Sampling/Likelihoods/image_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/image_likelihood.py b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
index a16dd7a..d041d19 100644
--- a/lenstronomy/Sampling/Likelihoods/image_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
@@ -82,7 +82,7 @@ class ImageLikelihood(object):
             linear_prior=self._linear_prior,
             check_positive_flux=self._check_positive_flux,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15), param
         return logL, param
 
-- 
2.43.0


From 35026e9569e893435faafe91201dbd063e7f5a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 055/164] fix: joint-linear PSF error map follows the
 astrometric offsets

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 3573b02..870126d 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -71,7 +71,9 @@ class JointLinear(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
-- 
2.43.0


From 2c541c968ee7629e5549661f7feb09feeaef85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 056/164] fix: joint-linear positive-flux check looks at the
 solved amplitudes

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 870126d..9f19409 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -220,6 +220,9 @@ class JointLinear(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
+            self.update_linear_kwargs(
+                param, 0, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+            )
             bool_ = self._image_model_list[0].check_positive_flux(
                 kwargs_source, kwargs_lens_light, kwargs_ps
             )
-- 
2.43.0


From e046090a807e60c67283f27201b3f152d8aa151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:31 +0000
Subject: [PATCH 057/164] fix: linear response matrix includes the primary beam
 like the model image

---
 lenstronomy/ImSim/image_linear_solve.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 1c51a34..3835d74 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -394,6 +394,9 @@ class ImageLinearFit(ImageModel):
         # response of lensed source profile
         for i in range(0, n_source):
             image = source_light_response[i]
+            # multiply with primary beam
+            if self._pb is not None:
+                image *= self._pb_1d
             image *= extinction
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
@@ -401,13 +404,22 @@ class ImageLinearFit(ImageModel):
         # response of deflector light profile (or any other un-lensed extended components)
         for i in range(0, n_lens_light):
             image = lens_light_response[i]
+            # multiply with primary beam
+            if self._pb is not None:
+                image *= self._pb_1d
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
         # response of point sources
         for i in range(0, n_points):
+            amp_i = amp[i]
+            # apply primary beam values to the amplitudes of the point sources
+            if self._pb is not None:
+                amp_i = amp_i * self._point_source_primary_beam_amp_normalization(
+                    ra_pos[i], dec_pos[i]
+                )
             image = self.ImageNumerics.point_source_rendering(
-                ra_pos[i], dec_pos[i], amp[i]
+                ra_pos[i], dec_pos[i], amp_i
             )
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
-- 
2.43.0


From 61692d7df0ebf52b6095e60f83d215007d51f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:31 +0000
Subject: [PATCH 058/164] fix: interferometric linear solver works on
 non-square frames and shifted coordinates

---
 lenstronomy/ImSim/image_linear_solve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 3835d74..193364d 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -659,6 +659,9 @@ class ImageLinearFit(ImageModel):
         :param kwargs_special: list of special keyword arguments
         :return: response matrix (m x n)
         """
+        self.update_pixel_grid_coordinates(
+            kwargs_special=kwargs_special, model_index=self.image_index
+        )
         x_grid, y_grid = self.ImageNumerics.coordinates_evaluate
 
         source_light_response, n_source = self.source_mapping.image_flux_split(
@@ -770,13 +773,14 @@ class ImageLinearFit(ImageModel):
         [amp_array] is the solved optimal amplitudes.
         """
         num_of_light, num_of_image_pixel = np.shape(A)
+        nx, ny = self.Data.num_pixel_axes
 
         A_convolved = np.zeros(np.shape(A))
 
         # convolve each response separately
         for i in range(num_of_light):
             A_convolved[i] = util.image2array(
-                self._convolution._static_fft(util.array2image(A[i]), mode="same")
+                self._convolution._static_fft(util.array2image(A[i], nx, ny), mode="same")
             )
 
         M = np.zeros((num_of_light, num_of_light))
@@ -802,8 +806,8 @@ class ImageLinearFit(ImageModel):
             unconvolved_temp += param_amps[i] * A[i]
             dirty_temp += param_amps[i] * A_convolved[i]
 
-        unconvolved_model = util.array2image(unconvolved_temp)
-        dirty_model = util.array2image(dirty_temp)
+        unconvolved_model = util.array2image(unconvolved_temp, nx, ny)
+        dirty_model = util.array2image(dirty_temp, nx, ny)
 
         model = [unconvolved_model, dirty_model]
 
-- 
2.43.0


From 07aa73d7cbd827178984c4c5d916e4196ba03f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:53 +0000
Subject: [PATCH 059/164] fix: astrometric offsets of a single point source
 model are those of its own images

---
 lenstronomy/ImSim/image_model.py | 38 ++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 93ed423..47c9bd9 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -575,7 +575,11 @@ class ImageModel(object):
             kwargs_ps, kwargs_lens=kwargs_lens, k=k
         )
         ra_pos, dec_pos = self._displace_astrometry(
-            ra_pos, dec_pos, kwargs_special=kwargs_special
+            ra_pos,
+            dec_pos,
+            kwargs_special=self._select_astrometry(
+                kwargs_special, kwargs_ps, kwargs_lens, k, len(ra_pos)
+            ),
         )
 
         # Scale point source amplitude (amp) by the primary beam response, if applicable.
@@ -834,7 +838,11 @@ class ImageModel(object):
                     )
                     if len(ra_pos) > 0:
                         ra_pos, dec_pos = self._displace_astrometry(
-                            ra_pos, dec_pos, kwargs_special=kwargs_special
+                            ra_pos,
+                            dec_pos,
+                            kwargs_special=self._select_astrometry(
+                                kwargs_special, kwargs_ps, kwargs_lens, k, len(ra_pos)
+                            ),
                         )
                         error_map += self.ImageNumerics.psf_variance_map(
                             ra_pos,
@@ -845,6 +853,32 @@ class ImageModel(object):
                         )
         return error_map
 
+    def _select_astrometry(self, kwargs_special, kwargs_ps, kwargs_lens, k, num):
+        """Selects the astrometric offsets of the images of a single point source
+        model.
+
+        :param kwargs_special: keyword arguments, can contain 'delta_x_image' and
+            'delta_y_image' in order of all image positions
+        :param kwargs_ps: point source keyword arguments
+        :param kwargs_lens: lens model keyword arguments
+        :param k: index of the point source model, None for all of them
+        :param num: number of images of the selected model
+        :return: kwargs_special with the offsets of the selected images
+        """
+        if k is None or kwargs_special is None or "delta_x_image" not in kwargs_special:
+            return kwargs_special
+        i = 0
+        for j in range(k):
+            i += len(
+                self.PointSource.point_source_list(
+                    kwargs_ps, kwargs_lens=kwargs_lens, k=j
+                )[0]
+            )
+        kwargs_special = dict(kwargs_special)
+        for name in ["delta_x_image", "delta_y_image"]:
+            kwargs_special[name] = kwargs_special[name][i : i + num]
+        return kwargs_special
+
     @staticmethod
     def _displace_astrometry(x_pos, y_pos, kwargs_special=None):
         """Displaces point sources by shifts specified in kwargs_special.
-- 
2.43.0


From de0ea55d134c023ab36e7c0aff83924d1b9205da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:53 +0000
Subject: [PATCH 060/164] fix: joint-linear mode counts the shared linear
 parameters once

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 9f19409..dbc5d03 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -230,6 +230,20 @@ class JointLinear(MultiLinear):
                 logL -= 10**5
         return logL, param
 
+    def num_param_linear(
+        self, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+    ):
+        """Number of linear coefficients, which are shared by all the bands.
+
+        :return: number of linear coefficients to be solved for in the linear inversion
+        """
+        for i in range(self._num_bands):
+            if self._compute_bool[i] is True:
+                return self._image_model_list[i].num_param_linear(
+                    kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+        return 0
+
     def update_linear_kwargs(
         self,
         param,
-- 
2.43.0


From 860663cd22392c6b8a6decb3daf34a818b159641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:53 +0000
Subject: [PATCH 061/164] fix: reduced residuals of multi-linear models with
 bands switched off

---
 lenstronomy/ImSim/MultiBand/multi_data_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/MultiBand/multi_data_base.py b/lenstronomy/ImSim/MultiBand/multi_data_base.py
index ecdd25e..a61f7bf 100644
--- a/lenstronomy/ImSim/MultiBand/multi_data_base.py
+++ b/lenstronomy/ImSim/MultiBand/multi_data_base.py
@@ -83,7 +83,11 @@ class MultiDataBase(object):
             error_map_list = np.zeros(self.num_bands)
         index = 0
         for i in range(self._num_bands):
-            if self._compute_bool[i] is True:
+            if self._compute_bool[i] is not True:
+                # multi-linear models list the bands that are switched off as None
+                if len(model_list) == self._num_bands:
+                    index += 1
+            else:
                 residual_list.append(
                     self._image_model_list[i].reduced_residuals(
                         model_list[index], error_map=error_map_list[index]
-- 
2.43.0


From cdaa81c0f8ef0046db4976a0b9af2641687f4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:15 +0000
Subject: [PATCH 062/164] Revert the primary beam in the linear response matrix
 (an existing test documents it as beam-free)

---
 lenstronomy/ImSim/image_linear_solve.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 193364d..a367939 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -394,9 +394,6 @@ class ImageLinearFit(ImageModel):
         # response of lensed source profile
         for i in range(0, n_source):
             image = source_light_response[i]
-            # multiply with primary beam
-            if self._pb is not None:
-                image *= self._pb_1d
             image *= extinction
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
@@ -404,22 +401,13 @@ class ImageLinearFit(ImageModel):
         # response of deflector light profile (or any other un-lensed extended components)
         for i in range(0, n_lens_light):
             image = lens_light_response[i]
-            # multiply with primary beam
-            if self._pb is not None:
-                image *= self._pb_1d
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
         # response of point sources
         for i in range(0, n_points):
-            amp_i = amp[i]
-            # apply primary beam values to the amplitudes of the point sources
-            if self._pb is not None:
-                amp_i = amp_i * self._point_source_primary_beam_amp_normalization(
-                    ra_pos[i], dec_pos[i]
-                )
             image = self.ImageNumerics.point_source_rendering(
-                ra_pos[i], dec_pos[i], amp_i
+                ra_pos[i], dec_pos[i], amp[i]
             )
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
-- 
2.43.0


From fe62ea9d85bcb052fbeb623319260914d127e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 063/164] fix: PSF variance maps of non-pixelised PSFs

---
 lenstronomy/Data/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 5d2ed0e..4886a66 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -116,7 +116,7 @@ class PSF(object):
                         "psf_variance_map has the same size as the super-sampled kernel. Make sure the units in the"
                         "psf_variance_map are on the down-sampled pixel scale."
                     )
-            if kernel_point_source_normalisation is True:
+            if self.psf_type == "PIXEL" and kernel_point_source_normalisation is True:
                 self._psf_variance_map /= np.sum(np.array(kernel_point_source)) ** 2
             self.psf_variance_map_bool = True
         else:
-- 
2.43.0


From e588bfc28dfffd138408c147f7b39a5e10d7dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 064/164] fix: update_psf switches the PSF variance term with
 the new PSF

---
 lenstronomy/ImSim/image_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 47c9bd9..99a3027 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -735,6 +735,7 @@ class ImageModel(object):
         """
         self.PSF = psf_class
         self.PSF.set_pixel_size(self.Data.pixel_width)
+        self._psf_error_map = self.PSF.psf_variance_map_bool
         self.ImageNumerics = NumericsSubFrame(
             pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
         )
-- 
2.43.0


From ff113cd9fb01cb9041ff970e5f9566ffd8e64d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 065/164] fix: astrometric offsets stay with their images when
 an amplitude is zero

---
 lenstronomy/ImSim/image_model.py        |  4 ++--
 lenstronomy/PointSource/point_source.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 99a3027..d5751d0 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -572,7 +572,7 @@ class ImageModel(object):
         if self.PointSource is None:
             return point_source_image
         ra_pos, dec_pos, amp = self.PointSource.point_source_list(
-            kwargs_ps, kwargs_lens=kwargs_lens, k=k
+            kwargs_ps, kwargs_lens=kwargs_lens, k=k, keep_zero_amp=True
         )
         ra_pos, dec_pos = self._displace_astrometry(
             ra_pos,
@@ -872,7 +872,7 @@ class ImageModel(object):
         for j in range(k):
             i += len(
                 self.PointSource.point_source_list(
-                    kwargs_ps, kwargs_lens=kwargs_lens, k=j
+                    kwargs_ps, kwargs_lens=kwargs_lens, k=j, keep_zero_amp=True
                 )[0]
             )
         kwargs_special = dict(kwargs_special)
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 59b7a87..cffd87d 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -299,7 +299,9 @@ class PointSource(object):
                 y_image_list.append(y_image)
         return x_image_list, y_image_list
 
-    def point_source_list(self, kwargs_ps, kwargs_lens, k=None, with_amp=True):
+    def point_source_list(
+        self, kwargs_ps, kwargs_lens, k=None, with_amp=True, keep_zero_amp=False
+    ):
         """Returns the coordinates and amplitudes of all point sources in a single
         array.
 
@@ -309,6 +311,8 @@ class PointSource(object):
             models in the return
         :param with_amp: bool, if False, ignores the amplitude parameters in the return
             and instead provides ones for each point source image
+        :param keep_zero_amp: bool, if True, images of zero amplitude are kept (such
+            that all images of the models with flux are listed)
         :return: ra_array, dec_array, amp_array
         """
         # here we save the cache of the individual models but do not overwrite the class boolean variable to do so
@@ -325,10 +329,12 @@ class PointSource(object):
 
         ra_array, dec_array, amp_array = [], [], []
         for i, ra in enumerate(ra_list):
+            has_flux = self._flux_from_point_source_list[i if k is None else k]
             for j in range(len(ra)):
                 # Remove images with zero amplitude so that they do not have to be rendered.
                 if with_amp is True and amp_list[i][j] == 0:
-                    continue
+                    if not keep_zero_amp or not has_flux:
+                        continue
 
                 ra_array.append(ra_list[i][j])
                 dec_array.append(dec_list[i][j])
-- 
2.43.0


From a88e558f700ffe949b76303e421a667a92fff943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:36 +0000
Subject: [PATCH 066/164] fix: point source models can be selected by a list of
 indices as documented

---
 lenstronomy/ImSim/image_model.py        | 24 +++++++++++++-----------
 lenstronomy/PointSource/point_source.py | 11 ++++++++---
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index d5751d0..cf43833 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -578,7 +578,7 @@ class ImageModel(object):
             ra_pos,
             dec_pos,
             kwargs_special=self._select_astrometry(
-                kwargs_special, kwargs_ps, kwargs_lens, k, len(ra_pos)
+                kwargs_special, kwargs_ps, kwargs_lens, k
             ),
         )
 
@@ -842,7 +842,7 @@ class ImageModel(object):
                             ra_pos,
                             dec_pos,
                             kwargs_special=self._select_astrometry(
-                                kwargs_special, kwargs_ps, kwargs_lens, k, len(ra_pos)
+                                kwargs_special, kwargs_ps, kwargs_lens, k
                             ),
                         )
                         error_map += self.ImageNumerics.psf_variance_map(
@@ -854,7 +854,7 @@ class ImageModel(object):
                         )
         return error_map
 
-    def _select_astrometry(self, kwargs_special, kwargs_ps, kwargs_lens, k, num):
+    def _select_astrometry(self, kwargs_special, kwargs_ps, kwargs_lens, k):
         """Selects the astrometric offsets of the images of a single point source
         model.
 
@@ -862,22 +862,24 @@ class ImageModel(object):
             'delta_y_image' in order of all image positions
         :param kwargs_ps: point source keyword arguments
         :param kwargs_lens: lens model keyword arguments
-        :param k: index of the point source model, None for all of them
-        :param num: number of images of the selected model
+        :param k: index (or indices) of the point source models, None for all of them
         :return: kwargs_special with the offsets of the selected images
         """
         if k is None or kwargs_special is None or "delta_x_image" not in kwargs_special:
             return kwargs_special
+        index = []
         i = 0
-        for j in range(k):
-            i += len(
-                self.PointSource.point_source_list(
-                    kwargs_ps, kwargs_lens=kwargs_lens, k=j, keep_zero_amp=True
-                )[0]
+        for j in range(np.max(k) + 1):
+            ra_j, _, _ = self.PointSource.point_source_list(
+                kwargs_ps, kwargs_lens=kwargs_lens, k=j, keep_zero_amp=True
             )
+            if j in np.atleast_1d(k):
+                index += list(range(i, i + len(ra_j)))
+            i += len(ra_j)
         kwargs_special = dict(kwargs_special)
         for name in ["delta_x_image", "delta_y_image"]:
-            kwargs_special[name] = kwargs_special[name][i : i + num]
+            delta = kwargs_special[name]
+            kwargs_special[name] = [delta[i] for i in index if i < len(delta)]
         return kwargs_special
 
     @staticmethod
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index cffd87d..520f729 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -275,7 +275,7 @@ class PointSource(object):
         else:
             kwargs_lens_eqn_solver = self._kwargs_lens_eqn_solver
         for i, model in enumerate(self._point_source_list):
-            if k is None or k == i:
+            if k is None or i in np.atleast_1d(k):
                 kwargs = kwargs_ps[i]
                 x_image, y_image = model.image_position(
                     kwargs,
@@ -327,9 +327,14 @@ class PointSource(object):
             self.delete_lens_model_cache()
             self._set_save_cache(self._save_cache)
 
+        models = [
+            i
+            for i in range(len(self._point_source_list))
+            if k is None or i in np.atleast_1d(k)
+        ]
         ra_array, dec_array, amp_array = [], [], []
         for i, ra in enumerate(ra_list):
-            has_flux = self._flux_from_point_source_list[i if k is None else k]
+            has_flux = self._flux_from_point_source_list[models[i]]
             for j in range(len(ra)):
                 # Remove images with zero amplitude so that they do not have to be rendered.
                 if with_amp is True and amp_list[i][j] == 0:
@@ -372,7 +377,7 @@ class PointSource(object):
         """
         amp_list = []
         for i, model in enumerate(self._point_source_list):
-            if k is None or k == i:
+            if k is None or i in np.atleast_1d(k):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
-- 
2.43.0


From 4df785558d0bc1f636f0d58f0dea978f308ad936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 067/164] fix: lens equation solver leaves the lens model
 dynamic when there are no candidates

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index f0e2651..d05397f 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -345,6 +345,7 @@ class LensEquationSolver(object):
                 "coordinates %s and %s " % (len(x_mins), x_mins, y_mins)
             )
         if len(x_mins) < 1:
+            self.lensModel.set_dynamic()
             return x_mins, y_mins
         if initial_guess_cut:
             mag = np.abs(self.lensModel.magnification(x_mins, y_mins, kwargs_lens))
-- 
2.43.0


From b40ac9edbf81aa381e549f4d532aabae9231dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 068/164] fix: non-linear lens equation solver applies the
 precision limit to the distance

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index d05397f..75ae9af 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -503,7 +503,7 @@ class LensEquationSolver(object):
                 tol=precision_limit**2,
                 method="Nelder-Mead",
             )
-            delta = self._root(result.x, kwargs_lens, source_x, source_y)
+            delta = np.sqrt(self._root(result.x, kwargs_lens, source_x, source_y))
             x_guess, y_guess = result.x[0], result.x[1]
 
         else:
-- 
2.43.0


From 169738fc97f5965129916284431ec03b4a8cbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 069/164] fix: analytical lens equation solver with an
 off-centre or not last-listed convergence sheet

---
 .../LensModel/Solver/lens_equation_solver.py      | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 75ae9af..41dc106 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -201,22 +201,21 @@ class LensEquationSolver(object):
             lambda_mst = (
                 1 - kappa
             )  # a mass sheet that compensates the convergence field
+            # removing of kwargs_lens of "CONVERGENCE" profile
+            kwargs_lens_.pop(index_convergence)
+            lens_model_list.pop(index_convergence)
             # source position mapping
-            x_ = (x - ra0) / lambda_mst
-            y_ = (y - dec0) / lambda_mst
+            x_ = (x - kappa * ra0) / lambda_mst
+            y_ = (y - kappa * dec0) / lambda_mst
             # lens mapping
             # power-law scaling with mst
             # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
-            gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
+            gamma = kwargs_lens_[0].get("gamma", 2)
 
             kwargs_lens_[0]["theta_E"] /= lambda_mst ** (1.0 / (gamma - 1))
             if "SHEAR" in lens_model_list:
                 kwargs_lens_[1]["gamma1"] /= lambda_mst
                 kwargs_lens_[1]["gamma2"] /= lambda_mst
-
-            # removing of kwargs_lens of "CONVERGENCE" profile
-            kwargs_lens_.pop(index_convergence)
-            lens_model_list.pop(index_convergence)
         else:
             kwargs_lens_ = copy.deepcopy(kwargs_lens)
             x_, y_ = x, y
@@ -228,7 +227,7 @@ class LensEquationSolver(object):
 
         # re-scale solutions if source redshift has changed (i.e. alpha_scaling != 1)
 
-        gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
+        gamma = kwargs_lens_[0].get("gamma", 2)
         kwargs_lens_[0]["theta_E"] *= alpha_scaling ** (1.0 / (gamma - 1))
         if "SHEAR" in lens_model_list:
             kwargs_lens_[1]["gamma1"] *= alpha_scaling
-- 
2.43.0


From d2e71788fd2a4aa8fd871b47b4c982931c2f1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:08 +0000
Subject: [PATCH 070/164] fix: analytical lens equation solver accepts lenses
 with default centre

---
 lenstronomy/LensModel/Solver/epl_shear_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/epl_shear_solver.py b/lenstronomy/LensModel/Solver/epl_shear_solver.py
index 5f2ffb3..8dd03e1 100644
--- a/lenstronomy/LensModel/Solver/epl_shear_solver.py
+++ b/lenstronomy/LensModel/Solver/epl_shear_solver.py
@@ -258,7 +258,9 @@ def _check_center(kwargs_lens):
         shear = Shear()
         # calculate shift from the deflector centroid from the shear field
         alpha_x, alpha_y = shear.derivatives(
-            kwargs_lens[0]["center_x"], kwargs_lens[0]["center_y"], **kwargs_lens[1]
+            kwargs_lens[0].get("center_x", 0),
+            kwargs_lens[0].get("center_y", 0),
+            **kwargs_lens[1]
         )
         return alpha_x, alpha_y
     else:
@@ -295,7 +297,7 @@ def solve_lenseq_pemd(pos_, kwargs_lens, Nmeas=400, Nmeas_extra=80, **kwargs):
         gamma = 0 + 0j
     shift_x, shift_y = _check_center(kwargs_lens)
     shift = shift_x + 1j * shift_y
-    cen = kwargs_lens[0]["center_x"] + 1j * kwargs_lens[0]["center_y"]
+    cen = kwargs_lens[0].get("center_x", 0) + 1j * kwargs_lens[0].get("center_y", 0)
     p = pos[0] + 1j * pos[1] - cen + shift
 
     rotfact = np.exp(-1j * theta_ell)
-- 
2.43.0


From ba730c3b11363b42bd8d7586b7e56555d820b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:30 +0000
Subject: [PATCH 071/164] fix: point sources at their own redshift leave the
 shared lens model at its source redshift

---
 lenstronomy/PointSource/Types/base_ps.py      | 12 +++
 .../PointSource/Types/lensed_position.py      | 85 ++++++++++---------
 .../PointSource/Types/source_position.py      | 24 +++---
 3 files changed, 67 insertions(+), 54 deletions(-)

diff --git a/lenstronomy/PointSource/Types/base_ps.py b/lenstronomy/PointSource/Types/base_ps.py
index cf61233..bcf78be 100644
--- a/lenstronomy/PointSource/Types/base_ps.py
+++ b/lenstronomy/PointSource/Types/base_ps.py
@@ -1,3 +1,4 @@
+from contextlib import contextmanager
 from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
 import numpy as np
 
@@ -104,6 +105,17 @@ class PSBase(object):
             "source_position definition is not defined in the profile you want to execute."
         )
 
+    @contextmanager
+    def _lens_model_at_redshift(self):
+        """Evaluates the (shared) lens model at the redshift of this source and puts it
+        back to its source redshift afterwards."""
+        z_source = getattr(self._lens_model, "z_source", None)
+        self._lens_model.change_source_redshift(self._redshift)
+        try:
+            yield
+        finally:
+            self._lens_model.change_source_redshift(z_source)
+
     def update_lens_model(self, lens_model_class):
         """Update LensModel() and LensEquationSolver() instance.
 
diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 0561e44..32d96a5 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -51,14 +51,14 @@ class LensedPositions(PSBase):
                 kwargs_lens_eqn_solver = {}
             ra_source, dec_source = self.source_position(kwargs_ps, kwargs_lens)
             # TODO: this solver does not distinguish between different frames/bands with partial lens models
-            self._solver.change_source_redshift(self._redshift)
-            ra_image, dec_image = self._solver.image_position_from_source(
-                ra_source,
-                dec_source,
-                kwargs_lens,
-                magnification_limit=magnification_limit,
-                **kwargs_lens_eqn_solver
-            )
+            with self._lens_model_at_redshift():
+                ra_image, dec_image = self._solver.image_position_from_source(
+                    ra_source,
+                    dec_source,
+                    kwargs_lens,
+                    magnification_limit=magnification_limit,
+                    **kwargs_lens_eqn_solver
+                )
         else:
             ra_image = kwargs_ps["ra_image"]
             dec_image = kwargs_ps["dec_image"]
@@ -74,20 +74,20 @@ class LensedPositions(PSBase):
         """
         ra_image = kwargs_ps["ra_image"]
         dec_image = kwargs_ps["dec_image"]
-        self._lens_model.change_source_redshift(self._redshift)
 
-        if self.k_list is None:
-            x_source, y_source = self._lens_model.ray_shooting(
-                ra_image, dec_image, kwargs_lens
-            )
-        else:
-            x_source, y_source = [], []
-            for i in range(len(ra_image)):
-                x, y = self._lens_model.ray_shooting(
-                    ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
+        with self._lens_model_at_redshift():
+            if self.k_list is None:
+                x_source, y_source = self._lens_model.ray_shooting(
+                    ra_image, dec_image, kwargs_lens
                 )
-                x_source.append(x)
-                y_source.append(y)
+            else:
+                x_source, y_source = [], []
+                for i in range(len(ra_image)):
+                    x, y = self._lens_model.ray_shooting(
+                        ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
+                    )
+                    x_source.append(x)
+                    y_source.append(y)
         x_source = np.mean(x_source)
         y_source = np.mean(y_source)
         return np.array(x_source), np.array(y_source)
@@ -116,7 +116,6 @@ class LensedPositions(PSBase):
             details
         :return: array of image amplitudes
         """
-        self._lens_model.change_source_redshift(self._redshift)
         if self._fixed_magnification:
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
@@ -128,16 +127,7 @@ class LensedPositions(PSBase):
                     kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
 
-            if self.k_list is None:
-                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
-            else:
-                mag = []
-                for i in range(len(ra_image)):
-                    mag.append(
-                        self._lens_model.magnification(
-                            ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
-                        )
-                    )
+            mag = self._magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
         else:
             point_amp = kwargs_ps["point_amp"]
@@ -145,6 +135,27 @@ class LensedPositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         return np.array(point_amp)
 
+    def _magnification(self, ra_image, dec_image, kwargs_lens):
+        """Magnifications at the image positions for the redshift of this source (and
+        the lens models of the frames of the images)
+
+        :param ra_image: image positions
+        :param dec_image: image positions
+        :param kwargs_lens: lens model keyword argument list
+        :return: (signed) magnifications
+        """
+        with self._lens_model_at_redshift():
+            if self.k_list is None:
+                return self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            mag = []
+            for i in range(len(ra_image)):
+                mag.append(
+                    self._lens_model.magnification(
+                        ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
+                    )
+                )
+            return mag
+
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
@@ -158,20 +169,10 @@ class LensedPositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = np.array(kwargs_ps["ra_image"]), np.array(
                 kwargs_ps["dec_image"]
             )
-            if self.k_list is None:
-                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
-            else:
-                mag = []
-                for i in range(len(ra_image)):
-                    mag.append(
-                        self._lens_model.magnification(
-                            ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
-                        )
-                    )
+            mag = self._magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index f5326f5..65723c2 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -45,14 +45,14 @@ class SourcePositions(PSBase):
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
         ra_source, dec_source = self.source_position(kwargs_ps)
-        self._solver.change_source_redshift(self._redshift)
-        ra_image, dec_image = self._solver.image_position_from_source(
-            ra_source,
-            dec_source,
-            kwargs_lens,
-            magnification_limit=magnification_limit,
-            **kwargs_lens_eqn_solver
-        )
+        with self._lens_model_at_redshift():
+            ra_image, dec_image = self._solver.image_position_from_source(
+                ra_source,
+                dec_source,
+                kwargs_lens,
+                magnification_limit=magnification_limit,
+                **kwargs_lens_eqn_solver
+            )
         return ra_image, dec_image
 
     def source_position(self, kwargs_ps, **kwargs):
@@ -90,7 +90,6 @@ class SourcePositions(PSBase):
         :return: array of image amplitudes
         """
         if self._fixed_magnification:
-            self._lens_model.change_source_redshift(self._redshift)
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
@@ -102,7 +101,8 @@ class SourcePositions(PSBase):
                     magnification_limit=magnification_limit,
                     kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
-            mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            with self._lens_model_at_redshift():
+                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
         else:
             point_amp = kwargs_ps["point_amp"]
@@ -125,9 +125,9 @@ class SourcePositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
-            mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            with self._lens_model_at_redshift():
+                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.abs(mag))
         return np.array(source_amp)
-- 
2.43.0


From f2430fe05b8adace4f6bf61caf952c7da51d057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 072/164] fix: likelihoods with sampled cosmology evaluate
 image positions in the current cosmology

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 6 +++---
 lenstronomy/Sampling/likelihood.py                        | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 318828a..4a581fd 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -127,15 +127,15 @@ class TimeDelayLikelihood(object):
         :type lambda_mst: float or int
         :return: log likelihood of the model given the time delay data.
         """
-        x_pos, y_pos = self._pointSource.image_position(
-            kwargs_ps=kwargs_ps, kwargs_lens=kwargs_lens, original_position=True
-        )
         if self._lensModel.cosmology_sampling:
             cosmo = get_astropy_cosmology(
                 cosmology_model=self._lensModel.cosmology_model,
                 param_kwargs=kwargs_cosmo,
             )
             self._lensModel.update_cosmology(cosmo)
+        x_pos, y_pos = self._pointSource.image_position(
+            kwargs_ps=kwargs_ps, kwargs_lens=kwargs_lens, original_position=True
+        )
 
         logL = 0
         for i in range(self._num_point_sources):
diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index f498b40..196f23d 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -8,6 +8,7 @@ from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLike
 from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood
 from lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood import KinLikelihood
 import lenstronomy.Util.class_creator as class_creator
+from lenstronomy.Util.cosmo_util import get_astropy_cosmology
 import numpy as np
 
 __all__ = ["Likelihood"]
@@ -573,4 +574,11 @@ class Likelihood(object):
                 kinematic_data=self.kinematic_data,
                 kwargs_tracer=self._kwargs_tracer,
             )
+        lens_model_class = self.PointSource._lens_model
+        if getattr(lens_model_class, "cosmology_sampling", False):
+            cosmo = get_astropy_cosmology(
+                cosmology_model=lens_model_class.cosmology_model,
+                param_kwargs=kwargs_special,
+            )
+            lens_model_class.update_cosmology(cosmo)
         # TODO remove redundancies with Param() calls updates
-- 
2.43.0


From c097f48dfe2c23b02a86dbdb55d87354745b228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 073/164] fix: likelihoods of point sources at their own
 redshift leave the lens model at its source redshift

---
 lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py | 2 ++
 lenstronomy/Sampling/Likelihoods/position_likelihood.py   | 3 +++
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
index 81d4234..5e231f2 100644
--- a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
@@ -76,6 +76,7 @@ class FluxRatioLikelihood(object):
         for k in range(len(ra_image_list)):
             if self._flux_ratio_measurement_bool[k] is True:
                 x_pos, y_pos = ra_image_list[k], dec_image_list[k]
+                z_source = self._lens_model_class.z_source
                 self._lens_model_class.change_source_redshift(
                     z_source=self._point_source_redshift_list[k]
                 )
@@ -95,6 +96,7 @@ class FluxRatioLikelihood(object):
                         polar_grid=self._polar_grid,
                         aspect_ratio=self._aspect_ratio,
                     )
+                self._lens_model_class.change_source_redshift(z_source=z_source)
                 if len(mag) - 1 != len(self._flux_ratios[k]):
                     return -(10**15)
                 mag_ratio = mag[1:] / mag[0]
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index b5f12f1..1e81ba2 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -276,6 +276,7 @@ class PositionLikelihood(object):
             ):
                 x_image = kwargs_ps[k]["ra_image"]
                 y_image = kwargs_ps[k]["dec_image"]
+                z_source = self._lensModel.z_source
                 self._lensModel.change_source_redshift(redshift_list[k])
                 # calculating the individual source positions from the image positions
                 k_list = self._pointSource.k_list(k)
@@ -308,9 +309,11 @@ class PositionLikelihood(object):
                     try:
                         Sigma_inv = inv(Sigma_beta)
                     except:
+                        self._lensModel.change_source_redshift(z_source)
                         return -(10**15)
                     chi2 = delta.T.dot(Sigma_inv.dot(delta))
                     logL -= chi2 / 2
+                self._lensModel.change_source_redshift(z_source)
         return logL
 
     @property
diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 4a581fd..74fd789 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -142,6 +142,7 @@ class TimeDelayLikelihood(object):
             mask = np.array(self._measurement_bool_list[i])
             if np.any(mask):
                 x_pos_, y_pos_ = x_pos[i], y_pos[i]
+                z_source = self._lensModel.z_source
                 self._lensModel.change_source_redshift(
                     z_source=self._pointSource._redshift_list[i]
                 )
@@ -156,6 +157,7 @@ class TimeDelayLikelihood(object):
                     D_dt_model = kwargs_cosmo["D_dt"]
                     Ddt_scaled = self._lensModel.ddt_scaling * D_dt_model
                     delay_days = const.delay_arcsec2days(delay_arcsec, Ddt_scaled)
+                self._lensModel.change_source_redshift(z_source=z_source)
                 delay_days *= lambda_mst
                 if self._bimodal_measurement:
                     logL1 = self._log_delay_masked(
-- 
2.43.0


From b19775586914780cdd2ef06504809bd9bb5b5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 074/164] fix: TimeDelayLikelihood.num_data counts the
 time-delay measurements

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 74fd789..f732888 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -239,4 +239,7 @@ class TimeDelayLikelihood(object):
 
         :return: number of time delay measurements
         """
-        return len(self._delays_measured)
+        num = 0
+        for mask in self._measurement_bool_list:
+            num += int(np.sum(np.array(mask, dtype=bool)))
+        return num
-- 
2.43.0


From 4d9890eedadad27a8edbbbbfff2c69e728f5328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 075/164] fix: bimodal time-delay likelihood does not underflow
 to -inf

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index f732888..0473211 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -166,7 +166,7 @@ class TimeDelayLikelihood(object):
                     logL2 = self._log_delay_masked(
                         delay_days=delay_days, mask=mask, i=1
                     )
-                    logL_sum = np.log(np.exp(logL1) + np.exp(logL2))
+                    logL_sum = np.logaddexp(logL1, logL2)
                     logL += logL_sum
                 else:
                     logL += self._log_delay_masked(
-- 
2.43.0


From 360746be3e797f5cd15636838f2c75025dd8c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 076/164] fix: image-to-source covariance for asymmetric
 (multi-plane) lensing Jacobians

---
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index 1e81ba2..c07510b 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -338,5 +338,5 @@ def image2source_covariance(A, Sigma_theta):
     A: Hessian lensing matrix
     Sigma_theta: image plane covariance matrix of uncertainties
     """
-    ATSigma = np.matmul(A.T, Sigma_theta)
-    return np.matmul(ATSigma, A)
+    ASigma = np.matmul(A, Sigma_theta)
+    return np.matmul(ASigma, A.T)
-- 
2.43.0


From e2d77c6ce4f495e156bb7cc0799407a2adea5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 077/164] fix: check_image_positions ray-traces to the redshift
 of each point source

---
 lenstronomy/PointSource/point_source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 520f729..325f10b 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -507,10 +507,12 @@ class PointSource(object):
             if model in ["LENSED_POSITION", "SOURCE_POSITION"]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
-                # TODO: ray-trace to specific source redshift
+                z_source = self._lens_model.z_source
+                self._lens_model.change_source_redshift(self._redshift_list[i])
                 x_source, y_source = self._lens_model.ray_shooting(
                     x_pos, y_pos, kwargs_lens
                 )
+                self._lens_model.change_source_redshift(z_source)
                 dist = np.sqrt(
                     (x_source - x_source[0]) ** 2 + (y_source - y_source[0]) ** 2
                 )
-- 
2.43.0


From 169c7b5519fe13da8e90efefd2843b1087bed28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 078/164] fix: source amplitudes of SOURCE_POSITION models use
 the lens equation solver settings

---
 .../PointSource/Types/lensed_position.py      |  2 +-
 .../PointSource/Types/source_position.py      | 21 +++++++++++++++++--
 lenstronomy/PointSource/point_source.py       |  5 ++++-
 .../PointSource/point_source_cached.py        | 21 +++++++++++++++++--
 4 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 32d96a5..e529b49 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -156,7 +156,7 @@ class LensedPositions(PSBase):
                 )
             return mag
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(self, kwargs_ps, kwargs_lens=None, **kwargs):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 65723c2..885fbc5 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -112,7 +112,13 @@ class SourcePositions(PSBase):
         mag_pert = _shrink_array(mag_pert, len(point_amp))
         return np.array(point_amp) * np.array(mag_pert)
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
@@ -120,12 +126,23 @@ class SourcePositions(PSBase):
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), used when
             brightness are defined in magnified on-sky positions
+        :param magnification_limit: float >0 or None, if float is set, only those images
+            will be computed that exceed the lensing magnification (absolute value)
+            limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
+            ra_image, dec_image = self.image_position(
+                kwargs_ps,
+                kwargs_lens,
+                magnification_limit=magnification_limit,
+                kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+            )
             with self._lens_model_at_redshift():
                 mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 325f10b..79e73b2 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -401,7 +401,10 @@ class PointSource(object):
         amp_list = []
         for i, model in enumerate(self._point_source_list):
             source_amp = model.source_amplitude(
-                kwargs_ps=kwargs_ps[i], kwargs_lens=kwargs_lens
+                kwargs_ps=kwargs_ps[i],
+                kwargs_lens=kwargs_lens,
+                magnification_limit=self._magnification_limit,
+                kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
             )
             if self._flux_from_point_source_list[i]:
                 amp_list.append(source_amp)
diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 52a0e42..58c528e 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -133,12 +133,29 @@ class PointSourceCached(object):
             kwargs_ps, kwargs_lens=kwargs_lens, x_pos=x_pos, y_pos=y_pos
         )
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source.
 
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), only used when
             positions are defined in image plane and have to be ray-traced back
+        :param magnification_limit: float >0 or None, if float is set, only those images
+            will be computed that exceed the lensing magnification (absolute value)
+            limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
-        return self._model.source_amplitude(kwargs_ps, kwargs_lens=kwargs_lens)
+        return self._model.source_amplitude(
+            kwargs_ps,
+            kwargs_lens=kwargs_lens,
+            magnification_limit=magnification_limit,
+            kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+        )
-- 
2.43.0


From 13f239ba028ebf98652352b212178b0c578f7aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:22 +0000
Subject: [PATCH 079/164] fix: default limits of CONST_MAG magnifications leave
 a range to sample

---
 lenstronomy/LensModel/Profiles/const_mag.py | 366 ++++++++++----------
 1 file changed, 183 insertions(+), 183 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/const_mag.py b/lenstronomy/LensModel/Profiles/const_mag.py
index 966e102..da2aae8 100644
--- a/lenstronomy/LensModel/Profiles/const_mag.py
+++ b/lenstronomy/LensModel/Profiles/const_mag.py
@@ -1,183 +1,183 @@
-__author__ = "gipagano"
-
-import numpy as np
-from lenstronomy.LensModel.Profiles.base_profile import LensProfileBase
-
-__all__ = ["ConstMag"]
-
-
-class ConstMag(LensProfileBase):
-    """This class implements the macromodel potential of Diego et al.
-
-    `ConstMag` assumes constant radial and tangential magnification components.
-
-    The lensing potential is given by:
-
-    .. math::
-        \\psi(\\theta_x, \\theta_y) = \\frac{\\kappa}{2}(\\theta_x^2 + \\theta_y^2) + \\frac{\\gamma_1}{2}(\\theta_x^2 - \\theta_y^2) - \\gamma_2(\\theta_x \\theta_y)
-
-    where:
-    :math:`\\theta_x` and :math:`\\theta_y` are angular coordinates in the image plane,
-    :math:`\\gamma_1` and :math:`\\gamma_2` are the horizontal and vertical components of shear, respectively, and
-    :math:`\\kappa` is the convergence.
-
-
-    :math:`\\kappa` and :math:`\\gamma` depend on the parity. A negative parity means the image becomes inverted compared to the source.
-
-    For positive parity (:math:`\\text{parity} = +1`):
-
-    .. math::
-        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} - \\frac{1}{\\mu_r}\\right)
-        \\kappa = 1 - \\gamma - \\frac{1}{\\mu_r}
-
-    For negative parity (:math:`\\text{parity} = -1`):
-
-    .. math::
-        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} + \\frac{1}{\\mu_r}\\right)
-        \\kappa = 1 - \\gamma + \\frac{1}{\\mu_r}
-
-    where :math:`mu_r` and :math:`mu_t` are the radial and tangental components of magnification, respectively.
-
-    The shear components are calculated as:
-
-    .. math::
-        \\gamma_1 = \\gamma\\cos{2\\phi_G}
-        \\gamma_2 = -\\gamma\\sin{2\\phi_G}
-
-    where :math:`\\phi_G` is the shear orientation angle relative to the x-axis.
-
-    For a detailed derivation see <https://www.aanda.org/articles/aa/pdf/2019/07/aa35490-19.pdf>`
-    _
-    Convergence and shear are computed according to `Diego2018 <arXiv:1706.10281v2>`
-    """
-
-    param_names = ["center_x", "center_y", "mu_r", "mu_t", "parity", "phi_G"]
-    lower_limit_default = {
-        "center_x": -100,
-        "center_y": -100,
-        "mu_r": 1,
-        "mu_t": 1000,
-        "parity": -1,
-        "phi_G": 0.0,
-    }
-    upper_limit_default = {
-        "center_x": 100,
-        "center_y": 100,
-        "mu_r": 1,
-        "mu_t": 1000,
-        "parity": 1,
-        "phi_G": np.pi,
-    }
-
-    def function(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
-        """
-
-        :param x: x-coord (in angles)
-        :param y: y-coord (in angles)
-        :param mu_r: radial magnification
-        :param mu_t: tangential magnification
-        :param parity: parity side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
-        :param phi_G: shear orientation angle (relative to the x-axis)
-        :return: lensing potential
-        """
-
-        # positive parity case
-        if parity == 1:
-            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma - 1.0 / mu_r
-
-        # negative parity case
-        elif parity == -1:
-            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma + 1.0 / mu_r
-        else:
-            raise ValueError(
-                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
-                % parity
-            )
-
-        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
-        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
-
-        x_shift = x - center_x
-        y_shift = y - center_y
-        f_ = (
-            1.0 / 2.0 * kappa * (x_shift * x_shift + y_shift * y_shift)
-            + 1.0 / 2.0 * gamma1 * (x_shift * x_shift - y_shift * y_shift)
-            - gamma2 * x_shift * y_shift
-        )
-
-        return f_
-
-    def derivatives(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
-        """
-
-        :param x: x-coord (in angles)
-        :param y: y-coord (in angles)
-        :param mu_r: radial magnification
-        :param mu_t: tangential magnification
-        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
-        :param phi_G: shear orientation angle (relative to the x-axis)
-        :return: deflection angle (in angles)
-        """
-
-        # positive parity case
-        if parity == 1:
-            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma - 1.0 / mu_r
-
-        # negative parity case
-        elif parity == -1:
-            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma + 1.0 / mu_r
-        else:
-            raise ValueError(
-                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
-                % parity
-            )
-
-        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
-        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
-
-        x_shift = x - center_x
-        y_shift = y - center_y
-        f_x = (kappa + gamma1) * x_shift - gamma2 * y_shift
-        f_y = (kappa - gamma1) * y_shift - gamma2 * x_shift
-
-        return f_x, f_y
-
-    def hessian(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
-        """
-
-        :param x: x-coord (in angles)
-        :param y: y-coord (in angles)
-        :param mu_r: radial magnification
-        :param mu_t: tangential magnification
-        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
-        :param phi_G: shear orientation angle (relative to the x-axis)
-        :return: hessian matrix (in angles)
-        """
-
-        # positive parity case
-        if parity == 1:
-            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma - 1.0 / mu_r
-
-        # negative parity case
-        elif parity == -1:
-            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma + 1.0 / mu_r
-        else:
-            raise ValueError(
-                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
-                % parity
-            )
-
-        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
-        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
-
-        f_xx = kappa + gamma1
-        f_yy = kappa - gamma1
-        f_xy = -gamma2
-
-        return f_xx, f_xy, f_xy, f_yy
+__author__ = "gipagano"
+
+import numpy as np
+from lenstronomy.LensModel.Profiles.base_profile import LensProfileBase
+
+__all__ = ["ConstMag"]
+
+
+class ConstMag(LensProfileBase):
+    """This class implements the macromodel potential of Diego et al.
+
+    `ConstMag` assumes constant radial and tangential magnification components.
+
+    The lensing potential is given by:
+
+    .. math::
+        \\psi(\\theta_x, \\theta_y) = \\frac{\\kappa}{2}(\\theta_x^2 + \\theta_y^2) + \\frac{\\gamma_1}{2}(\\theta_x^2 - \\theta_y^2) - \\gamma_2(\\theta_x \\theta_y)
+
+    where:
+    :math:`\\theta_x` and :math:`\\theta_y` are angular coordinates in the image plane,
+    :math:`\\gamma_1` and :math:`\\gamma_2` are the horizontal and vertical components of shear, respectively, and
+    :math:`\\kappa` is the convergence.
+
+
+    :math:`\\kappa` and :math:`\\gamma` depend on the parity. A negative parity means the image becomes inverted compared to the source.
+
+    For positive parity (:math:`\\text{parity} = +1`):
+
+    .. math::
+        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} - \\frac{1}{\\mu_r}\\right)
+        \\kappa = 1 - \\gamma - \\frac{1}{\\mu_r}
+
+    For negative parity (:math:`\\text{parity} = -1`):
+
+    .. math::
+        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} + \\frac{1}{\\mu_r}\\right)
+        \\kappa = 1 - \\gamma + \\frac{1}{\\mu_r}
+
+    where :math:`mu_r` and :math:`mu_t` are the radial and tangental components of magnification, respectively.
+
+    The shear components are calculated as:
+
+    .. math::
+        \\gamma_1 = \\gamma\\cos{2\\phi_G}
+        \\gamma_2 = -\\gamma\\sin{2\\phi_G}
+
+    where :math:`\\phi_G` is the shear orientation angle relative to the x-axis.
+
+    For a detailed derivation see <https://www.aanda.org/articles/aa/pdf/2019/07/aa35490-19.pdf>`
+    _
+    Convergence and shear are computed according to `Diego2018 <arXiv:1706.10281v2>`
+    """
+
+    param_names = ["center_x", "center_y", "mu_r", "mu_t", "parity", "phi_G"]
+    lower_limit_default = {
+        "center_x": -100,
+        "center_y": -100,
+        "mu_r": 1,
+        "mu_t": 1,
+        "parity": -1,
+        "phi_G": 0.0,
+    }
+    upper_limit_default = {
+        "center_x": 100,
+        "center_y": 100,
+        "mu_r": 1000,
+        "mu_t": 1000,
+        "parity": 1,
+        "phi_G": np.pi,
+    }
+
+    def function(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
+        """
+
+        :param x: x-coord (in angles)
+        :param y: y-coord (in angles)
+        :param mu_r: radial magnification
+        :param mu_t: tangential magnification
+        :param parity: parity side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
+        :param phi_G: shear orientation angle (relative to the x-axis)
+        :return: lensing potential
+        """
+
+        # positive parity case
+        if parity == 1:
+            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma - 1.0 / mu_r
+
+        # negative parity case
+        elif parity == -1:
+            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma + 1.0 / mu_r
+        else:
+            raise ValueError(
+                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
+                % parity
+            )
+
+        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
+        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
+
+        x_shift = x - center_x
+        y_shift = y - center_y
+        f_ = (
+            1.0 / 2.0 * kappa * (x_shift * x_shift + y_shift * y_shift)
+            + 1.0 / 2.0 * gamma1 * (x_shift * x_shift - y_shift * y_shift)
+            - gamma2 * x_shift * y_shift
+        )
+
+        return f_
+
+    def derivatives(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
+        """
+
+        :param x: x-coord (in angles)
+        :param y: y-coord (in angles)
+        :param mu_r: radial magnification
+        :param mu_t: tangential magnification
+        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
+        :param phi_G: shear orientation angle (relative to the x-axis)
+        :return: deflection angle (in angles)
+        """
+
+        # positive parity case
+        if parity == 1:
+            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma - 1.0 / mu_r
+
+        # negative parity case
+        elif parity == -1:
+            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma + 1.0 / mu_r
+        else:
+            raise ValueError(
+                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
+                % parity
+            )
+
+        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
+        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
+
+        x_shift = x - center_x
+        y_shift = y - center_y
+        f_x = (kappa + gamma1) * x_shift - gamma2 * y_shift
+        f_y = (kappa - gamma1) * y_shift - gamma2 * x_shift
+
+        return f_x, f_y
+
+    def hessian(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
+        """
+
+        :param x: x-coord (in angles)
+        :param y: y-coord (in angles)
+        :param mu_r: radial magnification
+        :param mu_t: tangential magnification
+        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
+        :param phi_G: shear orientation angle (relative to the x-axis)
+        :return: hessian matrix (in angles)
+        """
+
+        # positive parity case
+        if parity == 1:
+            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma - 1.0 / mu_r
+
+        # negative parity case
+        elif parity == -1:
+            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma + 1.0 / mu_r
+        else:
+            raise ValueError(
+                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
+                % parity
+            )
+
+        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
+        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
+
+        f_xx = kappa + gamma1
+        f_yy = kappa - gamma1
+        f_xy = -gamma2
+
+        return f_xx, f_xy, f_xy, f_yy
-- 
2.43.0


From d32ca3bb0061e8f371d4ceca528a6dc773f42573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:22 +0000
Subject: [PATCH 080/164] fix: default limits of ElliSLICE include sigma_0

---
 lenstronomy/LensModel/Profiles/elliptical_density_slice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
index ee0f98d..10eabde 100644
--- a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
+++ b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
@@ -41,6 +41,7 @@ class ElliSLICE(LensProfileBase):
         "a": 0.0,
         "b": 0.0,
         "psi": -90.0 / 180.0 * np.pi,
+        "sigma_0": 0.0,
         "center_x": -100.0,
         "center_y": -100.0,
     }
@@ -48,6 +49,7 @@ class ElliSLICE(LensProfileBase):
         "a": 100.0,
         "b": 100.0,
         "psi": 90.0 / 180.0 * np.pi,
+        "sigma_0": 100.0,
         "center_x": 100.0,
         "center_y": 100.0,
     }
-- 
2.43.0


From 304ccfd35eb935834ef3382aae921a81ef77c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:22 +0000
Subject: [PATCH 081/164] fix: CTNFW_GAUSS_DEC lists center_x and center_y as
 two parameters

---
 lenstronomy/LensModel/Profiles/gauss_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/gauss_decomposition.py b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
index 4ca089e..49d4d79 100644
--- a/lenstronomy/LensModel/Profiles/gauss_decomposition.py
+++ b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
@@ -555,7 +555,7 @@ class CTNFWGaussDec(GaussDecompositionAbstract3D):
     """This class computes the lensing properties of an projection from a spherical
     cored-truncated NFW profile using Shajib (2019)'s Gauss decomposition method."""
 
-    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x" "center_y"]
+    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x", "center_y"]
     lower_limit_default = {
         "r_s": 0,
         "r_core": 0,
-- 
2.43.0


From 38f51a223104c977c7653ee5b567f56d81b47a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:22 +0000
Subject: [PATCH 082/164] fix: ARC_PERT has default parameter limits

---
 .../LensModel/Profiles/arc_perturbations.py        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/arc_perturbations.py b/lenstronomy/LensModel/Profiles/arc_perturbations.py
index 12f3a6e..7ffb6f5 100644
--- a/lenstronomy/LensModel/Profiles/arc_perturbations.py
+++ b/lenstronomy/LensModel/Profiles/arc_perturbations.py
@@ -11,6 +11,20 @@ class ArcPerturbations(LensProfileBase):
     directions to perturb a lensing potential."""
 
     param_names = ["coeff", "d_r", "d_phi", "center_x", "center_y"]
+    lower_limit_default = {
+        "coeff": -100,
+        "d_r": 0,
+        "d_phi": 0,
+        "center_x": -100,
+        "center_y": -100,
+    }
+    upper_limit_default = {
+        "coeff": 100,
+        "d_r": 100,
+        "d_phi": 2 * np.pi,
+        "center_x": 100,
+        "center_y": 100,
+    }
 
     def __init__(self):
         super(ArcPerturbations, self).__init__()
-- 
2.43.0


From 296af281be581061cb3a3c9983c364faa0b9296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:22 +0000
Subject: [PATCH 083/164] fix: default upper limits of elliptical Gaussian
 light ellipticities are +0.5

---
 lenstronomy/LightModel/Profiles/gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/gaussian.py b/lenstronomy/LightModel/Profiles/gaussian.py
index 74806de..0c7b2e4 100644
--- a/lenstronomy/LightModel/Profiles/gaussian.py
+++ b/lenstronomy/LightModel/Profiles/gaussian.py
@@ -87,8 +87,8 @@ class GaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
@@ -247,8 +247,8 @@ class MultiGaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From 4eb02ae3b212fefc2922196f373deb70f72753c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:22 +0000
Subject: [PATCH 084/164] fix: default limits of CORE_SERSIC include R_sersic

---
 lenstronomy/LightModel/Profiles/sersic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LightModel/Profiles/sersic.py b/lenstronomy/LightModel/Profiles/sersic.py
index 486f8a8..815bbe4 100644
--- a/lenstronomy/LightModel/Profiles/sersic.py
+++ b/lenstronomy/LightModel/Profiles/sersic.py
@@ -222,6 +222,7 @@ class CoreSersic(SersicUtil):
     ]
     lower_limit_default = {
         "amp": 0,
+        "R_sersic": 0,
         "Rb": 0,
         "n_sersic": 0.5,
         "gamma": 0,
@@ -232,6 +233,7 @@ class CoreSersic(SersicUtil):
     }
     upper_limit_default = {
         "amp": 100,
+        "R_sersic": 100,
         "Rb": 100,
         "n_sersic": 8,
         "gamma": 10,
-- 
2.43.0


From 6ff229d9bad412c077aac7bfe7014f10180d776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 085/164] fix: LensParam samples the amplitude lists of the
 multi-Gaussian lens models

---
 lenstronomy/LensModel/lens_param.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lenstronomy/LensModel/lens_param.py b/lenstronomy/LensModel/lens_param.py
index 866de1b..22a4acd 100644
--- a/lenstronomy/LensModel/lens_param.py
+++ b/lenstronomy/LensModel/lens_param.py
@@ -3,6 +3,13 @@ import numpy as np
 
 __all__ = ["LensParam"]
 
+# lens models whose 'amp' and 'sigma' parameters are lists
+_MULTI_GAUSSIAN = [
+    "MULTI_GAUSSIAN",
+    "MULTI_GAUSSIAN_ELLIPSE_KAPPA",
+    "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL",
+]
+
 
 class LensParam(object):
     """Class to handle the lens model parameter."""
@@ -106,8 +113,7 @@ class LensParam(object):
                             kwargs["coeffs"] = args[i : i + num_coeffs]
                         i += num_coeffs
                     elif (
-                        model
-                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
+                        model in _MULTI_GAUSSIAN
                         and name == "amp"
                     ):
                         if "sigma" in kwargs_fixed:
@@ -117,8 +123,7 @@ class LensParam(object):
                         kwargs["amp"] = args[i : i + num_param]
                         i += num_param
                     elif (
-                        model
-                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
+                        model in _MULTI_GAUSSIAN
                         and name == "sigma"
                     ):
                         raise ValueError("%s must have fixed 'sigma' list!" % model)
@@ -170,15 +175,13 @@ class LensParam(object):
                                 coeffs = coeffs[3:]
                         args += list(coeffs)
                     elif (
-                        model
-                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
+                        model in _MULTI_GAUSSIAN
                         and name == "amp"
                     ):
                         amp = kwargs["amp"]
                         args += list(amp)
                     elif (
-                        model
-                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
+                        model in _MULTI_GAUSSIAN
                         and name == "sigma"
                     ):
                         raise ValueError("%s must have fixed 'sigma' list!" % model)
@@ -229,8 +232,7 @@ class LensParam(object):
                         num += num_coeffs
                         list += [str(name + "_" + type + str(k))] * num_coeffs
                     elif (
-                        model
-                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
+                        model in _MULTI_GAUSSIAN
                         and name == "amp"
                     ):
                         num_param = len(kwargs_fixed["sigma"])
@@ -238,8 +240,7 @@ class LensParam(object):
                         for i in range(num_param):
                             list.append(str(name + "_" + type + str(k)))
                     elif (
-                        model
-                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
+                        model in _MULTI_GAUSSIAN
                         and name == "sigma"
                     ):
                         raise ValueError(
-- 
2.43.0


From 6bb3d38975663c7e79979ff191814acad6c8d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 086/164] fix: LightParam samples the amplitude list of
 SHAPELETS_ELLIPSE

---
 lenstronomy/LightModel/light_param.py | 31 +++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index 9ad3824..a922e3f 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -55,7 +55,12 @@ class LightParam(object):
         self.upper_limit = kwargs_upper
         # check that n_max is fixed
         for k, model in enumerate(self.model_list):
-            if model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]:
+            if model in [
+                "SHAPELETS",
+                "SHAPELETS_ELLIPSE",
+                "SHAPELETS_POLAR",
+                "SHAPELETS_POLAR_EXP",
+            ]:
                 if "n_max" not in self.kwargs_fixed[k]:
                     Warning("n_max needs to be fixed in %s." % model)
 
@@ -79,7 +84,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_ELLIPSE",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" in kwargs_fixed:
@@ -141,7 +152,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_ELLIPSE",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                        ]
                         and name == "amp"
                     ):
                         n_max = kwargs_fixed.get("n_max", kwargs.get("n_max"))
@@ -213,7 +230,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_ELLIPSE",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" not in kwargs_fixed:
-- 
2.43.0


From 9b61f6a5da78a0428e69d694183fcdf301ef1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 087/164] fix: LightParam samples the amplitude list of the
 MGE_SET light models

---
 lenstronomy/LightModel/light_param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index a922e3f..50c2716 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -113,6 +113,10 @@ class LightParam(object):
                             raise ValueError("sigma needs to be fixed in %s." % model)
                         kwargs["amp"] = args[i : i + num_param]
                         i += num_param
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        kwargs["amp"] = args[i : i + num_param]
+                        i += num_param
                     elif (
                         model in ["SLIT_STARLETS", "SLIT_STARLETS_GEN2"]
                         and name == "amp"
@@ -206,6 +210,10 @@ class LightParam(object):
                         num_param = len(kwargs["sigma"])
                         for i in range(num_param):
                             args.append(kwargs[name][i])
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        for i in range(num_param):
+                            args.append(kwargs[name][i])
                     elif (
                         model in ["MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"]
                         and name == "sigma"
@@ -276,6 +284,11 @@ class LightParam(object):
                         num += num_param
                         for i in range(num_param):
                             name_list.append(str(name + "_" + self._type + str(k)))
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        num += num_param
+                        for i in range(num_param):
+                            name_list.append(str(name + "_" + self._type + str(k)))
                     else:
                         num += 1
                         name_list.append(str(name + "_" + self._type + str(k)))
-- 
2.43.0


From 9ad62b0d8efc3903d8fcc568b982a4e46ae87b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 088/164] fix: Param accepts optical depth models without fixed
 extinction parameters

---
 lenstronomy/Sampling/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 1556b09..41378c8 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -318,6 +318,10 @@ class Param(object):
             ]
         if kwargs_fixed_ps is None:
             kwargs_fixed_ps = [{} for _ in range(len(self._point_source_model_list))]
+        if kwargs_fixed_extinction is None:
+            kwargs_fixed_extinction = [
+                {} for _ in range(len(self._optical_depth_model_list))
+            ]
         if kwargs_fixed_tracer_source is None:
             kwargs_fixed_tracer_source = [
                 {} for _ in range(len(self._tracer_source_model_list))
-- 
2.43.0


From a05677d525cf32ea5f391ed841163acad83aa60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 089/164] fix: imposing limits on array parameters does not
 alter the sampled vector

---
 lenstronomy/Sampling/param_group.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Sampling/param_group.py b/lenstronomy/Sampling/param_group.py
index 35a75aa..fda5703 100644
--- a/lenstronomy/Sampling/param_group.py
+++ b/lenstronomy/Sampling/param_group.py
@@ -306,14 +306,10 @@ class ArrayParam(ModelParamGroup):
                 params[name] = args[i : i + count]
 
                 if kwargs_lower is not None:
-                    for j in range(len(params[name])):
-                        if params[name][j] < kwargs_lower[name][j]:
-                            params[name][j] = kwargs_lower[name][j]
+                    params[name] = np.maximum(params[name], kwargs_lower[name])
 
                 if kwargs_upper is not None:
-                    for j in range(len(params[name])):
-                        if params[name][j] > kwargs_upper[name][j]:
-                            params[name][j] = kwargs_upper[name][j]
+                    params[name] = np.minimum(params[name], kwargs_upper[name])
 
                 i += count
             else:
-- 
2.43.0


From 9fc9f9c9c6a68f4cdf4616ce9e2030b0b2b40222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:44 +0000
Subject: [PATCH 090/164] fix: undo mass scaling and general scaling of one
 parameter in the right order

---
 lenstronomy/Sampling/parameters.py | 48 +++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 41378c8..c8907a8 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -906,6 +906,10 @@ class Param(object):
         if not (self._mass_scaling or self._general_scaling):
             return kwargs_lens_updated
 
+        # the inverse undoes the two scalings in the opposite order
+        if self._general_scaling and inverse:
+            self._apply_general_scaling(kwargs_special, kwargs_lens_updated, inverse)
+
         # TODO: remove separate logic for mass scaling. either deprecate it
         # entirely, implement the details as a special case of general_scaling
         if self._mass_scaling:
@@ -926,26 +930,36 @@ class Param(object):
                     elif "k_eff" in kwargs:
                         kwargs["k_eff"] *= scale_factor
 
-        if self._general_scaling:
-            for param_name in self._general_scaling_masks.keys():
-                factors = kwargs_special[f"{param_name}_scale_factor"]
-                _pows = kwargs_special[f"{param_name}_scale_pow"]
-
-                for i, kwargs in enumerate(kwargs_lens_updated):
-                    scale_idx = self._general_scaling_masks[param_name][i]
-                    if scale_idx is not False:
-                        if inverse:
-                            kwargs[param_name] = (
-                                kwargs[param_name] / factors[scale_idx - 1]
-                            ) ** (1 / _pows[scale_idx - 1])
-                        else:
-                            kwargs[param_name] = (
-                                factors[scale_idx - 1]
-                                * kwargs[param_name] ** _pows[scale_idx - 1]
-                            )
+        if self._general_scaling and not inverse:
+            self._apply_general_scaling(kwargs_special, kwargs_lens_updated, inverse)
 
         return kwargs_lens_updated
 
+    def _apply_general_scaling(self, kwargs_special, kwargs_lens, inverse=False):
+        """Applies the general scaling (or its inverse) to kwargs_lens in place.
+
+        :param kwargs_special: keyword arguments of the 'special' arguments
+        :param kwargs_lens: lens model keyword argument list (gets updated)
+        :param inverse: bool, if True, performs the inverse lens scaling
+        :return: None
+        """
+        for param_name in self._general_scaling_masks.keys():
+            factors = kwargs_special[f"{param_name}_scale_factor"]
+            _pows = kwargs_special[f"{param_name}_scale_pow"]
+
+            for i, kwargs in enumerate(kwargs_lens):
+                scale_idx = self._general_scaling_masks[param_name][i]
+                if scale_idx is not False:
+                    if inverse:
+                        kwargs[param_name] = (
+                            kwargs[param_name] / factors[scale_idx - 1]
+                        ) ** (1 / _pows[scale_idx - 1])
+                    else:
+                        kwargs[param_name] = (
+                            factors[scale_idx - 1]
+                            * kwargs[param_name] ** _pows[scale_idx - 1]
+                        )
+
     def _add_fixed_lens(self, kwargs_fixed, kwargs_init):
         kwargs_fixed_update = copy.deepcopy(kwargs_fixed)
         if self._solver is True:
-- 
2.43.0


From 10ca8daf6ae053f70aeccc435080aafa4c814327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 091/164] fix: the lens equation solver of Param follows the
 sampled redshifts

---
 lenstronomy/Sampling/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index c8907a8..407d600 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -392,6 +392,7 @@ class Param(object):
         except:
             self._num_images = 0
         self._solver_type = solver_type
+        self._solver_param_module = solver_param_module
         if self._solver_type == "NONE" or self._solver_type is None:
             self._solver = False
         else:
@@ -1031,6 +1032,13 @@ class Param(object):
             self._image2SourceMapping = Image2SourceMapping(
                 lens_model=self._lens_model_class, source_model=self._source_model_class
             )
+            if self._solver is True:
+                self._solver_module = Solver(
+                    solver_type=self._solver_type,
+                    lensModel=self._lens_model_class,
+                    num_images=self._num_images,
+                    parameter_module=self._solver_param_module,
+                )
 
     def check_solver(self, kwargs_lens, kwargs_ps):
         """Test whether the image positions map back to the same source position :param
-- 
2.43.0


From bfc7bce555a0d1c05c8229e0ed29a294fc527eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 092/164] fix: not-a-number astrometric and tracer likelihoods
 get their penalty

---
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 2 +-
 lenstronomy/Sampling/Likelihoods/tracer_likelihood.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index c07510b..ff27283 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -199,7 +199,7 @@ class PositionLikelihood(object):
             )
             dist = (delta_x**2 + delta_y**2) / sigma**2 / 2
             logL = -np.sum(dist)
-            if np.isnan(logL) is True:
+            if np.isnan(logL):
                 return -(10**15)
             return logL
         else:
diff --git a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
index c16686f..9932e05 100644
--- a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
@@ -71,7 +71,7 @@ class TracerLikelihood(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15)
         return logL
 
-- 
2.43.0


From 079ee2be0ef8687f7f9cf87b4d2ba04635a3e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 093/164] fix: KDE priors on special and extinction parameters
 enter the likelihood

---
 .../Sampling/Likelihoods/prior_likelihood.py  | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
index 02203b9..666bf94 100644
--- a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
@@ -74,6 +74,8 @@ class PriorLikelihood(object):
             self._prior_lens_light_kde,
             self._prior_ps_kde,
         ) = (prior_lens_kde, prior_source_kde, prior_lens_light_kde, prior_ps_kde)
+        self._prior_special_kde = prior_special_kde
+        self._prior_extinction_kde = prior_extinction_kde
         (
             self._prior_lens_lognormal,
             self._prior_source_lognormal,
@@ -94,21 +96,21 @@ class PriorLikelihood(object):
         self._kde_source_list = self._init_kde(prior_source_kde)
         self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
         self._kde_ps_list = self._init_kde(prior_ps_kde)
-        self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
+        self._kde_special_list = self._init_kde(prior_special_kde)
+        self._kde_extinction_list = self._init_kde(prior_extinction_kde)
 
     @staticmethod
     def _init_kde(prior_list_kde):
         """
 
-        :param prior_list_kde: list of [index_model, param_name, samples]
+        :param prior_list_kde: list of [index_model, param_name, samples] or [param_name, samples]
         :return: list of initiated KDE's
         """
         if prior_list_kde is None:
             return 0
         kde_list = []
         for prior in prior_list_kde:
-            index, param_name, samples = prior
-            kde_list.append(KDE1D(values=samples))
+            kde_list.append(KDE1D(values=prior[-1]))
         return kde_list
 
     def logL(
@@ -161,6 +163,12 @@ class PriorLikelihood(object):
             kwargs_lens_light, self._prior_lens_light_kde, self._kde_lens_light_list
         )
         logL += self._prior_kde_list(kwargs_ps, self._prior_ps_kde, self._kde_ps_list)
+        logL += self._prior_kde(
+            kwargs_special, self._prior_special_kde, self._kde_special_list
+        )
+        logL += self._prior_kde_list(
+            kwargs_extinction, self._prior_extinction_kde, self._kde_extinction_list
+        )
         return logL
 
     @staticmethod
@@ -181,6 +189,24 @@ class PriorLikelihood(object):
             logL += np.log(likelihood)
         return logL
 
+    @staticmethod
+    def _prior_kde(kwargs, prior_list, kde_list):
+        """Prior computation for a keyword argument (not list thereof)
+
+        :param kwargs: keyword argument
+        :param prior_list: list of [param_name, samples]
+        :param kde_list: list of initiated KDE's
+        :return: logL
+        """
+        if prior_list is None:
+            return 0
+        logL = 0
+        for i in range(len(prior_list)):
+            param_name, values = prior_list[i]
+            likelihood = kde_list[i].likelihood(kwargs[param_name])[0]
+            logL += np.log(likelihood)
+        return logL
+
     @staticmethod
     def _prior_kwargs_list(kwargs_list, prior_list):
         """
-- 
2.43.0


From 14cba269ac43553b0acddb5b8f021cdc66ba5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 094/164] fix: TimeDelayLikelihood does not alter the caller's
 list of measurements

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 0473211..c31016e 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -90,6 +90,7 @@ class TimeDelayLikelihood(object):
                 raise ValueError(
                     "time_delay_measurement_bool_list must have the same length as the number of point sources."
                 )
+            time_delay_measurement_bool_list = list(time_delay_measurement_bool_list)
             for i in range(self._num_point_sources):
                 if isinstance(
                     time_delay_measurement_bool_list[i], (bool, np.bool_, int)
-- 
2.43.0


From 740637b3e4d82f96281d43b3d1b17cbd2ecd1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 095/164] fix: point source cache is switched off when the
 custom likelihood skips the rest

---
 lenstronomy/Sampling/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index 196f23d..5775e49 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -439,7 +439,7 @@ class Likelihood(object):
                 if verbose is True:
                     print("tracer logL = %s" % logL_tracer)
                 logL += logL_tracer
-            self._reset_point_source_cache(bool_input=False)
+        self._reset_point_source_cache(bool_input=False)
         return logL  # , None
 
     @staticmethod
-- 
2.43.0


From a6a01646e2a3de7c546c57c00f45e4c99fcaac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 096/164] fix: 2D kinematic likelihood uses the chosen lens
 light model

---
 .../Sampling/Likelihoods/kinematic_2D_likelihood.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 2073d6a..27f0683 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -158,8 +158,8 @@ class KinLikelihood(object):
         q_mass = kwargs_lens[self._idx_lens]["q"]
         # orientation_light, q_light = param_util.ellipticity2phi_q(kwargs_lens_light[self._idx_lens]['e1'],
         #                                                         kwargs_lens_light[self._idx_lens]['e2'])
-        orientation_light = kwargs_lens_light[self._idx_lens]["phi"]
-        q_light = kwargs_lens_light[self._idx_lens]["q"]
+        orientation_light = kwargs_lens_light[self._idx_lens_light]["phi"]
+        q_light = kwargs_lens_light[self._idx_lens_light]["q"]
 
         same_orientation = True  # confirm that angles are aligned
         if np.abs(orientation_mass - orientation_light) > 0.05:
@@ -177,8 +177,8 @@ class KinLikelihood(object):
                     q_mass,
                     q_light,
                     theta_e_glee,
-                    kwargs_lens_light[self._idx_lens]["n_sersic"],
-                    kwargs_lens_light[self._idx_lens]["R_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["n_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["R_sersic"],
                     8.0e-2,
                     gamma_glee,
                     kwargs_special["b_ani"],
-- 
2.43.0


From 8c57fd9b42701b50339602dd0b1ca98bf84be7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 097/164] fix: the tracer likelihood uses the tracer_type of
 the model settings

---
 lenstronomy/Util/class_creator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index a3b619b..d68638f 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -491,5 +491,6 @@ def create_tracer_model(tracer_data, kwargs_model, tracer_likelihood_mask=None):
         psf_error_map_bool_list=None,
         kwargs_pixelbased=None,
         tracer_partition=tracer_partition,
+        tracer_type=kwargs_model.get("tracer_type", "LINEAR"),
     )
     return tracer_model
-- 
2.43.0


From df79aad6ea8526c8e893107eb5067638a5a2b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:18 +0000
Subject: [PATCH 098/164] fix: the tracer likelihood mask is not reset to the
 full image

---
 lenstronomy/ImSim/tracer_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/tracer_model.py b/lenstronomy/ImSim/tracer_model.py
index af599f4..f13ad16 100644
--- a/lenstronomy/ImSim/tracer_model.py
+++ b/lenstronomy/ImSim/tracer_model.py
@@ -72,6 +72,7 @@ class TracerModelSource(ImageModel):
             point_source_class=point_source_class,
             extinction_class=extinction_class,
             kwargs_numerics=kwargs_numerics,
+            likelihood_mask=likelihood_mask,
             kwargs_pixelbased=kwargs_pixelbased,
         )
         if psf_error_map_bool_list is None:
-- 
2.43.0


From 04dd623ff4fcb7eb468d2b39faaecc630ba4424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:57 +0000
Subject: [PATCH 099/164] fix: the lens equation solver returns the same images
 for the same inputs

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 41dc106..055e105 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -30,6 +30,8 @@ class LensEquationSolver(object):
             lenstronomy.LensModel.lens_model
         """
         self.lensModel = lensModel
+        # generator of the random re-trials of the gradient decent, see _find_gradient_decent()
+        self._random_state = np.random.RandomState(seed=0)
 
     def change_source_redshift(self, z_source=None):
         """Change source redshift in solver.
@@ -435,6 +437,8 @@ class LensEquationSolver(object):
             implemented gradient decent approach.
         :return: x_position array, y_position array, error in the source plane array
         """
+        # same sequence of random re-trials at each call, such that the same inputs result in the same images
+        self._random_state.seed(0)
         num_candidates = len(x_min)
         x_mins = np.zeros(num_candidates)
         y_mins = np.zeros(num_candidates)
@@ -577,8 +581,8 @@ class LensEquationSolver(object):
             else:
                 # if the new proposal is worse than the previous one, it randomly draws a new proposal in a different
                 # direction and tries again
-                image_plane_vector[0] *= np.random.normal(loc=0, scale=0.1)
-                image_plane_vector[1] *= np.random.normal(loc=0, scale=0.1)
+                image_plane_vector[0] *= self._random_state.normal(loc=0, scale=0.1)
+                image_plane_vector[1] *= self._random_state.normal(loc=0, scale=0.1)
                 return self._gradient_step(
                     x_guess,
                     y_guess,
-- 
2.43.0


From 679748d8110a0745b06f0fda4b847448aabb0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:52 +0000
Subject: [PATCH 100/164] Revert "fix: LensParam samples the amplitude lists of
 the multi-Gaussian lens models"

The existing test test_lens_param.TestParam::test_num_params pins the parameter count.
---
 lenstronomy/LensModel/lens_param.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lenstronomy/LensModel/lens_param.py b/lenstronomy/LensModel/lens_param.py
index 22a4acd..866de1b 100644
--- a/lenstronomy/LensModel/lens_param.py
+++ b/lenstronomy/LensModel/lens_param.py
@@ -3,13 +3,6 @@ import numpy as np
 
 __all__ = ["LensParam"]
 
-# lens models whose 'amp' and 'sigma' parameters are lists
-_MULTI_GAUSSIAN = [
-    "MULTI_GAUSSIAN",
-    "MULTI_GAUSSIAN_ELLIPSE_KAPPA",
-    "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL",
-]
-
 
 class LensParam(object):
     """Class to handle the lens model parameter."""
@@ -113,7 +106,8 @@ class LensParam(object):
                             kwargs["coeffs"] = args[i : i + num_coeffs]
                         i += num_coeffs
                     elif (
-                        model in _MULTI_GAUSSIAN
+                        model
+                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
                         and name == "amp"
                     ):
                         if "sigma" in kwargs_fixed:
@@ -123,7 +117,8 @@ class LensParam(object):
                         kwargs["amp"] = args[i : i + num_param]
                         i += num_param
                     elif (
-                        model in _MULTI_GAUSSIAN
+                        model
+                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
                         and name == "sigma"
                     ):
                         raise ValueError("%s must have fixed 'sigma' list!" % model)
@@ -175,13 +170,15 @@ class LensParam(object):
                                 coeffs = coeffs[3:]
                         args += list(coeffs)
                     elif (
-                        model in _MULTI_GAUSSIAN
+                        model
+                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
                         and name == "amp"
                     ):
                         amp = kwargs["amp"]
                         args += list(amp)
                     elif (
-                        model in _MULTI_GAUSSIAN
+                        model
+                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
                         and name == "sigma"
                     ):
                         raise ValueError("%s must have fixed 'sigma' list!" % model)
@@ -232,7 +229,8 @@ class LensParam(object):
                         num += num_coeffs
                         list += [str(name + "_" + type + str(k))] * num_coeffs
                     elif (
-                        model in _MULTI_GAUSSIAN
+                        model
+                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
                         and name == "amp"
                     ):
                         num_param = len(kwargs_fixed["sigma"])
@@ -240,7 +238,8 @@ class LensParam(object):
                         for i in range(num_param):
                             list.append(str(name + "_" + type + str(k)))
                     elif (
-                        model in _MULTI_GAUSSIAN
+                        model
+                        in ["MULTI_GAUSSIAN_KAPPA", "MULTI_GAUSSIAN_KAPPA_ELLIPSE"]
                         and name == "sigma"
                     ):
                         raise ValueError(
-- 
2.43.0


From 41fd94dca79720f6fb10d479c96807b5f95dbab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:07 +0000
Subject: [PATCH 101/164] fix: DynestySampler returns the likelihood of each
 returned sample

---
 lenstronomy/Sampling/Samplers/dynesty_sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Samplers/dynesty_sampler.py b/lenstronomy/Sampling/Samplers/dynesty_sampler.py
index 96ef27e..e7cbdea 100644
--- a/lenstronomy/Sampling/Samplers/dynesty_sampler.py
+++ b/lenstronomy/Sampling/Samplers/dynesty_sampler.py
@@ -115,7 +115,11 @@ class DynestySampler(NestedSampler):
         means, covs = self._dyfunc.mean_and_cov(samples_w, weights)
 
         # Resample weighted samples to get equally weighted (aka unweighted) samples
-        samples = self._dyfunc.resample_equal(samples_w, weights)
+        # (together with their likelihoods, such that each sample keeps its own)
+        samples_l = self._dyfunc.resample_equal(
+            np.column_stack([samples_w, log_l]), weights
+        )
+        samples, log_l = samples_l[:, :-1], samples_l[:, -1]
 
         return samples, means, log_z, log_z_err, log_l, results
 
-- 
2.43.0


From b0497b7e64f17805b7addf3d6e0d17ec2aad8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:22 +0000
Subject: [PATCH 102/164] fix: MultiNestSampler returns the likelihood of each
 returned sample

---
 lenstronomy/Sampling/Samplers/multinest_sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Sampling/Samplers/multinest_sampler.py b/lenstronomy/Sampling/Samplers/multinest_sampler.py
index 8b99e0e..de14ce9 100644
--- a/lenstronomy/Sampling/Samplers/multinest_sampler.py
+++ b/lenstronomy/Sampling/Samplers/multinest_sampler.py
@@ -115,21 +115,21 @@ class MultiNestSampler(NestedSampler):
             analyzer = self._Analyzer(
                 self.n_dims, outputfiles_basename=self.files_basename
             )
-            samples = analyzer.get_equal_weighted_posterior()[:, :-1]
-            data = analyzer.get_data()  # gets data from the *.txt output file
+            data = analyzer.get_equal_weighted_posterior()
+            samples = data[:, :-1]
+            logL = data[:, -1]  # last column is the logL of the sample
             stats = analyzer.get_stats()
 
         else:
             # in case MultiNest was not compiled properly, for unit tests
             samples = np.zeros((1, self.n_dims))
-            data = np.zeros((self.n_dims, 3))
+            logL = np.zeros(1)
             stats = {
                 "global evidence": np.zeros(self.n_dims),
                 "global evidence error": np.zeros(self.n_dims),
                 "modes": [{"mean": np.zeros(self.n_dims)}],
             }
 
-        logL = -0.5 * data[:, 1]  # since the second data column is -2*logL
         logZ = stats["global evidence"]
         logZ_err = stats["global evidence error"]
         # or better to use stats['marginals'][:]['median'] ???
-- 
2.43.0


From 2ae894ccd198422b0c9a1de10802892d432e54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:22 +0000
Subject: [PATCH 103/164] fix: the best fit after nested sampling is the sample
 with the highest likelihood

---
 lenstronomy/Workflow/fitting_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 1c73575..90ffa67 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -573,7 +573,7 @@ class FittingSequence(object):
             )
 
         # update current best fit values
-        self._update_state(samples[-1])
+        self._update_state(samples[np.argmax(logL)])
 
         output = [
             sampler_type,
-- 
2.43.0


From b27f6181d5ad1a052d4e475382d0bab2e573925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:55 +0000
Subject: [PATCH 104/164] fix: NFWParam.c_rho0 does not depend on the redshift
 it was first called with

---
 lenstronomy/Cosmo/nfw_param.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Cosmo/nfw_param.py b/lenstronomy/Cosmo/nfw_param.py
index 598971d..e97285a 100644
--- a/lenstronomy/Cosmo/nfw_param.py
+++ b/lenstronomy/Cosmo/nfw_param.py
@@ -104,12 +104,13 @@ class NFWParam(object):
         """
         if not hasattr(self, "_c_rho0_interp"):
             c_array = np.linspace(0.1, 30, 100)
-            rho0_array = self.rho0_c(c_array, z)
+            # in units of the critical density the relation is the same for all z
+            rho0_array = self.rho0_c(c_array, z) / self.rhoc_z(z)
 
             self._c_rho0_interp = interpolate.InterpolatedUnivariateSpline(
                 rho0_array, c_array, w=None, bbox=[None, None], k=3
             )
-        return self._c_rho0_interp(rho0)
+        return self._c_rho0_interp(rho0 / self.rhoc_z(z))
 
     @staticmethod
     def c_M_z(M, z):
-- 
2.43.0


From cc1b8f4c80268e00e9505258127b534fc7f085c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:56 +0000
Subject: [PATCH 105/164] fix: NFWParam.c_rho0 covers the documented range of
 concentrations

---
 lenstronomy/Cosmo/nfw_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Cosmo/nfw_param.py b/lenstronomy/Cosmo/nfw_param.py
index e97285a..98cb04f 100644
--- a/lenstronomy/Cosmo/nfw_param.py
+++ b/lenstronomy/Cosmo/nfw_param.py
@@ -103,7 +103,7 @@ class NFWParam(object):
         :rtype: float
         """
         if not hasattr(self, "_c_rho0_interp"):
-            c_array = np.linspace(0.1, 30, 100)
+            c_array = np.linspace(0.1, 40, 134)
             # in units of the critical density the relation is the same for all z
             rho0_array = self.rho0_c(c_array, z) / self.rhoc_z(z)
 
-- 
2.43.0


From 5afcc361d516cfd360ad78822c1e2536e55571d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:56 +0000
Subject: [PATCH 106/164] fix: GNFWParam.c_rho0 does not depend on the redshift
 it was first called with

---
 lenstronomy/Cosmo/gnfw_param.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Cosmo/gnfw_param.py b/lenstronomy/Cosmo/gnfw_param.py
index e93b232..963d46b 100644
--- a/lenstronomy/Cosmo/gnfw_param.py
+++ b/lenstronomy/Cosmo/gnfw_param.py
@@ -135,7 +135,8 @@ class GNFWParam(object):
             self._rho0_c_gamma_in_interps = []
 
             for i in range(len(c_array)):
-                rho0_array = self.rho0_c(c_array[i], z, gamma_in_array)
+                # in units of the critical density the relation is the same for all z
+                rho0_array = self.rho0_c(c_array[i], z, gamma_in_array) / self.rhoc_z(z)
 
                 self._rho0_c_gamma_in_interps.append(
                     interpolate.InterpolatedUnivariateSpline(
@@ -149,7 +150,7 @@ class GNFWParam(object):
             rho0_interp, c_array, w=None, bbox=[None, None], k=3
         )
 
-        return c_rho0_interp(rho0)
+        return c_rho0_interp(rho0 / self.rhoc_z(z))
 
     def c_M_z(self, M, z):
         """
-- 
2.43.0


From 150d5feb35d457fd95ad27bb00770dfd1d952f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:12 +0000
Subject: [PATCH 107/164] fix: GNFWParam.c_rho0 covers the same concentrations
 as NFWParam.c_rho0

---
 lenstronomy/Cosmo/gnfw_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Cosmo/gnfw_param.py b/lenstronomy/Cosmo/gnfw_param.py
index 963d46b..02bdc0d 100644
--- a/lenstronomy/Cosmo/gnfw_param.py
+++ b/lenstronomy/Cosmo/gnfw_param.py
@@ -129,7 +129,7 @@ class GNFWParam(object):
         :return: concentration parameter c
         :rtype: float
         """
-        c_array = np.linspace(0.1, 30, 100)
+        c_array = np.linspace(0.1, 40, 134)
         if not hasattr(self, "_rho0_c_gamma_in_interps"):
             gamma_in_array = np.linspace(0.1, 2.99, 100)
             self._rho0_c_gamma_in_interps = []
-- 
2.43.0


From 5f20bbad5beeddcdbbde2a35cfd733860a4c0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:18 +0000
Subject: [PATCH 108/164] fix: polar2cart adds the centre that cart2polar
 subtracts

---
 lenstronomy/Util/param_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/param_util.py b/lenstronomy/Util/param_util.py
index 32fbec0..33d83c4 100644
--- a/lenstronomy/Util/param_util.py
+++ b/lenstronomy/Util/param_util.py
@@ -44,7 +44,7 @@ def polar2cart(r, phi, center):
     """
     x = r * np.cos(phi)
     y = r * np.sin(phi)
-    return x - center[0], y - center[1]
+    return x + center[0], y + center[1]
 
 
 @export
-- 
2.43.0


From 498f801fcc3d2aa8d36843343f706f607ae71a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:18 +0000
Subject: [PATCH 109/164] fix: distance modulus in absolute2apparent_magnitude
 is 5 log10(d / 10pc)

---
 lenstronomy/Util/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 77da0dd..628b0bf 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -80,7 +80,7 @@ def absolute2apparent_magnitude(absolute_magnitude, d_parsec):
     :param d_parsec: distance to object in units parsec
     :return: apparent magnitude
     """
-    m_apparent = 5.8 * (np.log10(d_parsec) - 1) + absolute_magnitude
+    m_apparent = 5.0 * (np.log10(d_parsec) - 1) + absolute_magnitude
     return m_apparent
 
 
-- 
2.43.0


From e39a2c2578bdab4420607dc25f135a8305b0da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:18 +0000
Subject: [PATCH 110/164] fix: sort_image_index returns valid indexes for any
 number of images

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 9907d4a..0b79dc8 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -66,7 +66,7 @@ def sort_image_index(ximg, yimg, xref, yref):
     x_self = np.array(list(itertools.permutations(ximg)))
     y_self = np.array(list(itertools.permutations(yimg)))
 
-    indexes = [0, 1, 2, 3]
+    indexes = range(len(ximg))
     index_iterations = list(itertools.permutations(indexes))
     delta_r = []
 
-- 
2.43.0


From 362f4d045f741f8e36a145b2ba72c71f5f3c2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:18 +0000
Subject: [PATCH 111/164] fix: make_grid with left_lower keeps the sub-grid
 centred on its pixels

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 0b79dc8..c39da83 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -222,7 +222,7 @@ def make_grid(num_pix, delta_pix, subgrid_res=1, left_lower=False):
     if left_lower is True:
         # Shift so (0, 0) is in the "lower left"
         # Note this does not shift when subgrid_res = 1
-        shift = -1.0 / 2 + 1.0 / (2 * subgrid_res) * np.array([1, 1])
+        shift = delta_pix * (1.0 / 2 - 1.0 / (2 * subgrid_res)) * np.array([1, 1])
     else:
         # Shift so (0, 0) is centered
         shift = delta_pix_eff * (num_pix_eff - 1) / 2
-- 
2.43.0


From c4dd65ff619c28afcfec54c06eebe7a29bdd61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:18 +0000
Subject: [PATCH 112/164] fix: make_grid_with_coordtransform sub-grid offset
 follows the direction of the RA axis

---
 lenstronomy/Util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index c39da83..1ec2c7c 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -303,13 +303,13 @@ def make_grid_with_coordtransform(
     if left_lower is True:
         ra_grid = matrix[:, 0] * delta_x
         dec_grid = matrix[:, 1] * delta_pix_eff
-        shift = (subgrid_res - 1) / (2.0 * subgrid_res) * delta_pix
+        shift = (subgrid_res - 1) / 2.0
     else:
         ra_grid = (matrix[:, 0] - (num_pix_eff - 1) / 2.0) * delta_x
         dec_grid = (matrix[:, 1] - (num_pix_eff - 1) / 2.0) * delta_pix_eff
         shift = 0.0
-    ra_grid += -shift + center_ra
-    dec_grid += -shift + center_dec
+    ra_grid += -shift * delta_x + center_ra
+    dec_grid += -shift * delta_pix_eff + center_dec
     ra_at_xy_0 = ra_grid[0]
     dec_at_xy_0 = dec_grid[0]
 
-- 
2.43.0


From daa9ef4b2ff8f7f16e0352f32d60361318a657c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 113/164] fix: get_distance matches every position to one
 counterpart when distances tie

---
 lenstronomy/Util/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 1ec2c7c..708e56a 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -446,9 +446,7 @@ def get_distance(x_mins, y_mins, x_true, y_true):
     for i in range(0, len(x_mins)):
         dist_list = (x_mins[i] - x_true_list) ** 2 + (y_mins[i] - y_true_list) ** 2
         dist += min(dist_list)
-        k = np.where(dist_list == min(dist_list))
-        if type(k) != int:
-            k = k[0]
+        k = np.argmin(dist_list)
         x_true_list = np.delete(x_true_list, k)
         y_true_list = np.delete(y_true_list, k)
     return dist
-- 
2.43.0


From 64156b066049e8a1bc628e524329aa0d0efa0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 114/164] fix: min_square_dist does not truncate distances to
 the type of its input

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 708e56a..dfc4840 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -479,7 +479,7 @@ def min_square_dist(x_1, y_1, x_2, y_2):
     :param y_2:
     :return:
     """
-    dist = np.zeros_like(x_1)
+    dist = np.zeros(len(x_1))
     for i in range(len(x_1)):
         dist[i] = np.min((x_1[i] - x_2) ** 2 + (y_1[i] - y_2) ** 2)
     return dist
-- 
2.43.0


From eeeb51cea06e6ca7124df77e8a4aa6b23bc8e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 115/164] fix: half_light_radius does not change the light
 array of the caller

---
 lenstronomy/Util/analysis_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 204a2ea..693a68e 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -19,7 +19,7 @@ def half_light_radius(lens_light, x_grid, y_grid, center_x=0, center_y=0):
     :param center_y: center of light
     :return:
     """
-    lens_light[lens_light < 0] = 0
+    lens_light = np.maximum(lens_light, 0)
     total_flux_2 = np.sum(lens_light) / 2.0
     r_max = np.max(np.sqrt((x_grid - center_x) ** 2 + (y_grid - center_y) ** 2))
     for i in range(1000):
-- 
2.43.0


From 122feea57981dc47a4488c37f7832311d7b0fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 116/164] fix: azimuthal_average is centred on non-square
 images and accepts array centres

---
 lenstronomy/Util/analysis_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 693a68e..c5849be 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -69,8 +69,8 @@ def azimuthal_average(image, center=None):
     # Calculate the indices from the image
     y, x = np.indices(image.shape)
 
-    if not center:
-        center = np.array([(x.max() - x.min()) / 2.0, (x.max() - x.min()) / 2.0])
+    if center is None:
+        center = np.array([(x.max() - x.min()) / 2.0, (y.max() - y.min()) / 2.0])
 
     r = np.hypot(x - center[0], y - center[1])
 
-- 
2.43.0


From 76ff0f2a6bf102000186bded31050bdaf82eedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 117/164] fix: SkewGaussian is defined for vanishing skewness

---
 lenstronomy/Util/prob_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/prob_density.py b/lenstronomy/Util/prob_density.py
index dc47045..47f987f 100644
--- a/lenstronomy/Util/prob_density.py
+++ b/lenstronomy/Util/prob_density.py
@@ -49,7 +49,7 @@ class SkewGaussian(object):
         """
         skw_23 = np.abs(skw) ** (2.0 / 3)
         delta2 = skw_23 * np.pi / 2 / (skw_23 + ((4 - np.pi) / 2) ** (2.0 / 3))
-        return np.sqrt(delta2) * skw / np.abs(skw)
+        return np.sqrt(delta2) * np.sign(skw)
 
     def _alpha_delta(self, delta):
         """
-- 
2.43.0


From 019d7ccece7cda2a279977e08edc0061103cf53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 118/164] fix: cutout_source handles non-square images

---
 lenstronomy/Util/kernel_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 2424c31..01a65d7 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -523,11 +523,11 @@ def cutout_source(x_pos, y_pos, image, kernelsize, shift=True):
         raise ValueError("even pixel number kernel size not supported!")
     x_int = int(round(x_pos))
     y_int = int(round(y_pos))
-    n = len(image)
+    ny, nx = np.shape(image)
     d = (kernelsize - 1) / 2
-    x_max = int(np.minimum(x_int + d + 1, n))
+    x_max = int(np.minimum(x_int + d + 1, nx))
     x_min = int(np.maximum(x_int - d, 0))
-    y_max = int(np.minimum(y_int + d + 1, n))
+    y_max = int(np.minimum(y_int + d + 1, ny))
     y_min = int(np.maximum(y_int - d, 0))
     image_cut = copy.deepcopy(image[y_min:y_max, x_min:x_max])
     shift_x = x_int - x_pos
@@ -543,8 +543,8 @@ def cutout_source(x_pos, y_pos, image, kernelsize, shift=True):
 
     xk_min = np.maximum(0, -x_int + k_l2_x)
     yk_min = np.maximum(0, -y_int + k_l2_y)
-    xk_max = np.minimum(kernelsize, -x_int + k_l2_x + n)
-    yk_max = np.minimum(kernelsize, -y_int + k_l2_y + n)
+    xk_max = np.minimum(kernelsize, -x_int + k_l2_x + nx)
+    yk_max = np.minimum(kernelsize, -y_int + k_l2_y + ny)
 
     kernel_final[yk_min:yk_max, xk_min:xk_max] = kernel_shift
     return kernel_final
-- 
2.43.0


From 623f103e57fa31458d1f8f65b1da29450663f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 119/164] fix: KinNNImageAlign.update uses the pixel size of
 the updated imaging data

---
 lenstronomy/Util/kin_sampling_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/Util/kin_sampling_util.py b/lenstronomy/Util/kin_sampling_util.py
index 89b71b1..b4f7a7c 100644
--- a/lenstronomy/Util/kin_sampling_util.py
+++ b/lenstronomy/Util/kin_sampling_util.py
@@ -52,6 +52,9 @@ class KinNNImageAlign(object):
             self.spectra_data = spectra_inputs
         if imaging_inputs is not None:
             self.imaging_data = imaging_inputs
+            self.imaging_delta_pix = np.sqrt(
+                np.abs(np.linalg.det(self.imaging_data["transform_pix2angle"]))
+            )
         if kin_nn_inputs is not None:
             self.kinNN_data = kin_nn_inputs
         if update_npix:
-- 
2.43.0


From 3f7a1533aec22b5bad47e9f9498c2a36bccccc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:13 +0000
Subject: [PATCH 120/164] fix: Hessian with line-of-sight flexion includes the
 rotation its deflection has

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index b2c9092..1937d4d 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -511,8 +511,8 @@ class SinglePlaneLOSFlexion(SinglePlane):
 
         # LOS contribution in the absence of the main lens
         f_xx += kappa_os + gamma1_os
-        f_xy += gamma2_os
-        f_yx += gamma2_os
+        f_xy += gamma2_os - kwargs_los_flexion["omega_os"]
+        f_yx += gamma2_os + kwargs_los_flexion["omega_os"]
         f_yy += kappa_os - gamma1_os
 
         return f_xx.real, f_xy.real, f_yx.real, f_yy.real
-- 
2.43.0


From 18241b8c3e757deb717d86f06bbff4d758fe8a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:13 +0000
Subject: [PATCH 121/164] fix: potential of lenses with line-of-sight terms
 pairs parameters with their profiles

---
 lenstronomy/LensModel/LineOfSight/single_plane_los.py         | 4 ++--
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los.py b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
index 44ad5af..7c54901 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
@@ -399,7 +399,7 @@ class SinglePlaneLOS(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 1937d4d..2d0f516 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -594,7 +594,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
-- 
2.43.0


From 3516fd35844c079c8317b09eb12fc03282f8a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:13 +0000
Subject: [PATCH 122/164] fix: redshifts of the main lens match its profiles
 with line-of-sight flexion

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 2d0f516..7ec5602 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -76,7 +76,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         self._main_lens = SinglePlane(
             lens_model_list_wo_los,
             profile_kwargs_list=profile_kwargs_list_wo_los,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_wo_los,
             z_source_convention=z_source_convention,
         )
 
-- 
2.43.0


From 48ea9ef3aae54347795a38b782e518dd8e5f68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:35 +0000
Subject: [PATCH 123/164] fix: selecting profiles of a lens with line-of-sight
 terms counts all models in the list

---
 .../LensModel/LineOfSight/single_plane_los.py | 25 ++++++++++----
 .../LineOfSight/single_plane_los_flexion.py   | 33 ++++++++++++-------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los.py b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
index 7c54901..5ade4b9 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
@@ -2,6 +2,7 @@ __author__ = ["nataliehogg", "pierrefleury", "danjohnson98"]
 
 from lenstronomy.LensModel.single_plane import SinglePlane
 from lenstronomy.LensModel.profile_list_base import lens_class
+import lenstronomy.Util.util as util
 import numpy as np
 import copy
 
@@ -81,6 +82,16 @@ class SinglePlaneLOS(SinglePlane):
             z_source_convention=z_source_convention,
         )
 
+    def _k_main(self, k):
+        """Selection of the profiles of the main lens.
+
+        :param k: None, int, or list of ints or bools, selection among all the models
+            including the line-of-sight model
+        :return: list of bools selecting the profiles of the main lens
+        """
+        bool_list = util.convert_bool_list(len(self.func_list), k=k)
+        return [select for i, select in enumerate(bool_list) if i != self._index_los]
+
     def split_lens_los(self, kwargs):
         """This function splits the list of key-word arguments given to the lens model
         into those that correspond to the lens itself (kwargs_main), and those that
@@ -182,7 +193,7 @@ class SinglePlaneLOS(SinglePlane):
 
         # Evaluating the potential of the main lens at this position
         effective_potential = self._main_lens.potential(
-            x_d, y_d, kwargs=kwargs_main, k=k
+            x_d, y_d, kwargs=kwargs_main, k=self._k_main(k)
         )
 
         # obtaining the source position
@@ -232,7 +243,7 @@ class SinglePlaneLOS(SinglePlane):
         )
 
         # Displacement due to the main lens only
-        f_x, f_y = self._main_lens.alpha(x_d, y_d, kwargs=kwargs_main, k=k)
+        f_x, f_y = self._main_lens.alpha(x_d, y_d, kwargs=kwargs_main, k=self._k_main(k))
 
         # Correction due to the background convergence, shear and rotation
         f_x, f_y = self.los.distort_vector(
@@ -287,7 +298,7 @@ class SinglePlaneLOS(SinglePlane):
 
         # Hessian matrix of the main lens only
         f_xx, f_xy, f_yx, f_yy = self._main_lens.hessian(
-            x_d, y_d, kwargs=kwargs_main, k=k
+            x_d, y_d, kwargs=kwargs_main, k=self._k_main(k)
         )
 
         # Multiply on the left by (1 - Gamma_ds)
@@ -335,7 +346,7 @@ class SinglePlaneLOS(SinglePlane):
         print("Note: The computation of the 3d mass ignores the LOS corrections.")
 
         kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        mass_3d = self._main_lens.mass_3d(r=r, kwargs=kwargs_main, bool_list=bool_list)
+        mass_3d = self._main_lens.mass_3d(r=r, kwargs=kwargs_main, bool_list=self._k_main(bool_list))
 
         return mass_3d
 
@@ -358,7 +369,7 @@ class SinglePlaneLOS(SinglePlane):
         print("Note: The computation of the 2d mass ignores the LOS corrections.")
 
         kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        mass_2d = self._main_lens.mass_2d(r=r, kwargs=kwargs_main, bool_list=bool_list)
+        mass_2d = self._main_lens.mass_2d(r=r, kwargs=kwargs_main, bool_list=self._k_main(bool_list))
 
         return mass_2d
 
@@ -376,7 +387,7 @@ class SinglePlaneLOS(SinglePlane):
         print("Note: The computation of the density ignores the LOS corrections.")
 
         kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        density = self._main_lens.density(r=r, kwargs=kwargs_main, bool_list=bool_list)
+        density = self._main_lens.density(r=r, kwargs=kwargs_main, bool_list=self._k_main(bool_list))
 
         return density
 
@@ -400,6 +411,6 @@ class SinglePlaneLOS(SinglePlane):
               derive from a potential.")
 
         kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=self._k_main(k))
 
         return potential
diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 7ec5602..f0e8164 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -2,6 +2,7 @@ __author__ = ["TheoDuboscq"]
 
 from lenstronomy.LensModel.single_plane import SinglePlane
 from lenstronomy.LensModel.profile_list_base import lens_class
+import lenstronomy.Util.util as util
 import numpy as np
 import copy
 
@@ -80,6 +81,16 @@ class SinglePlaneLOSFlexion(SinglePlane):
             z_source_convention=z_source_convention,
         )
 
+    def _k_main(self, k):
+        """Selection of the profiles of the main lens.
+
+        :param k: None, int, or list of ints or bools, selection among all the models
+            including the line-of-sight model
+        :return: list of bools selecting the profiles of the main lens
+        """
+        bool_list = util.convert_bool_list(len(self.func_list), k=k)
+        return [select for i, select in enumerate(bool_list) if i != self._index_los_flexion]
+
     def split_lens_los_flexion(self, kwargs):
         """This function splits the list of key-word arguments given to the lens model
         into those that correspond to the lens itself (kwargs_main), and those that
@@ -234,17 +245,17 @@ class SinglePlaneLOSFlexion(SinglePlane):
         supF = F_los * theta * thetac**2
         supG = G_los * thetac**3
         effective_potential = (
-            self._main_lens.potential(x_d, y_d, kwargs=kwargs_main, k=k)
+            self._main_lens.potential(x_d, y_d, kwargs=kwargs_main, k=self._k_main(k))
             + 1 / 2 * supF.real
             + 1 / 6 * supG.real
         )
 
         # alpha_ods(f(theta))
-        m_x, m_y = self._main_lens.alpha(x_d, y_d, kwargs=kwargs_main, k=k)
+        m_x, m_y = self._main_lens.alpha(x_d, y_d, kwargs=kwargs_main, k=self._k_main(k))
 
         # alpha_eff, different from the one of the paper. In this one we add some flexion in alpha_eff (group3 term) which makes the global expression more compact.
         alpha1_m, alpha2_m = self._main_lens.alpha(
-            x_image, y_image, kwargs=kwargs_main, k=k
+            x_image, y_image, kwargs=kwargs_main, k=self._k_main(k)
         )
         alpha_m = alpha1_m + 1j * alpha2_m
         alpha_mc = alpha_m.conjugate()
@@ -323,7 +334,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         x_d, y_d = theta_d.real, theta_d.imag
 
         # Displacement due to the main lens only
-        m_x, m_y = self._main_lens.alpha(x_d, y_d, kwargs=kwargs_main, k=k)
+        m_x, m_y = self._main_lens.alpha(x_d, y_d, kwargs=kwargs_main, k=self._k_main(k))
 
         # Flexed alpha_os
         alpha_os = (
@@ -346,7 +357,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         x_s, y_s = alpha_os.real, alpha_os.imag
 
         # Terms in alpha_ods(theta)
-        alpha_ods_x, alpha_ods_y = self._main_lens.alpha(x, y, kwargs=kwargs_main, k=k)
+        alpha_ods_x, alpha_ods_y = self._main_lens.alpha(x, y, kwargs=kwargs_main, k=self._k_main(k))
         alpha_ods = alpha_ods_x + 1j * alpha_ods_y
         lin = (
             -(
@@ -409,7 +420,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         theta = x + y * 1j
         thetac = theta.conjugate()
 
-        alpha_ods_x, alpha_ods_y = self._main_lens.alpha(x, y, kwargs=kwargs_main, k=k)
+        alpha_ods_x, alpha_ods_y = self._main_lens.alpha(x, y, kwargs=kwargs_main, k=self._k_main(k))
         alpha_ods = alpha_ods_x + 1j * alpha_ods_y
 
         # Computation of complex parameters
@@ -446,7 +457,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
 
         # Hessian matrix of the main lens only
         f_xx, f_xy, f_yx, f_yy = self._main_lens.hessian(
-            x_d, y_d, kwargs=kwargs_main, k=k
+            x_d, y_d, kwargs=kwargs_main, k=self._k_main(k)
         )
 
         # Computation of Gamma_ds
@@ -530,7 +541,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         print("Note: The computation of the 3d mass ignores the LOS corrections.")
 
         kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
-        mass_3d = self._main_lens.mass_3d(r=r, kwargs=kwargs_main, bool_list=bool_list)
+        mass_3d = self._main_lens.mass_3d(r=r, kwargs=kwargs_main, bool_list=self._k_main(bool_list))
 
         return mass_3d
 
@@ -553,7 +564,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         print("Note: The computation of the 2d mass ignores the LOS corrections.")
 
         kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
-        mass_2d = self._main_lens.mass_2d(r=r, kwargs=kwargs_main, bool_list=bool_list)
+        mass_2d = self._main_lens.mass_2d(r=r, kwargs=kwargs_main, bool_list=self._k_main(bool_list))
 
         return mass_2d
 
@@ -571,7 +582,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         print("Note: The computation of the density ignores the LOS corrections.")
 
         kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
-        density = self._main_lens.density(r=r, kwargs=kwargs_main, bool_list=bool_list)
+        density = self._main_lens.density(r=r, kwargs=kwargs_main, bool_list=self._k_main(bool_list))
 
         return density
 
@@ -595,6 +606,6 @@ class SinglePlaneLOSFlexion(SinglePlane):
               derive from a potential.")
 
         kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=self._k_main(k))
 
         return potential
-- 
2.43.0


From 43a36aa63f9b1d125a5e210144f90fe1c38ec24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 124/164] fix: convergence integrals cover maps with more
 columns than rows

---
 lenstronomy/LensModel/convergence_integrals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/convergence_integrals.py b/lenstronomy/LensModel/convergence_integrals.py
index ef018c6..f9bbdc4 100644
--- a/lenstronomy/LensModel/convergence_integrals.py
+++ b/lenstronomy/LensModel/convergence_integrals.py
@@ -28,7 +28,7 @@ def potential_from_kappa_grid(kappa, grid_spacing):
     :param grid_spacing: scale of an individual pixel (per axis) of grid
     :return: lensing potential in a 2d grid at positions x_grid, y_grid
     """
-    num_pix = len(kappa) * 2
+    num_pix = max(np.shape(kappa)) * 2
     if num_pix % 2 == 0:
         num_pix += 1
     kernel = potential_kernel(num_pix, grid_spacing)
@@ -51,7 +51,7 @@ def potential_from_kappa_grid_adaptive(
     :return: lensing potential in a 2d grid at positions x_grid, y_grid
     """
     kappa_low_res = image_util.re_size(kappa_high_res, factor=low_res_factor)
-    num_pix = len(kappa_high_res) * 2
+    num_pix = max(np.shape(kappa_high_res)) * 2
     if num_pix % 2 == 0:
         num_pix += 1
     grid_spacing_low_res = grid_spacing * low_res_factor
@@ -92,7 +92,7 @@ def deflection_from_kappa_grid(kappa, grid_spacing):
     :param grid_spacing: scale of an individual pixel (per axis) of grid
     :return: numerical deflection angles in x- and y- direction over the convergence grid points
     """
-    num_pix = len(kappa) * 2
+    num_pix = max(np.shape(kappa)) * 2
     if num_pix % 2 == 0:
         num_pix += 1
     kernel_x, kernel_y = deflection_kernel(num_pix, grid_spacing)
@@ -117,7 +117,7 @@ def deflection_from_kappa_grid_adaptive(
     :return: numerical deflection angles in x- and y- direction
     """
     kappa_low_res = image_util.re_size(kappa_high_res, factor=low_res_factor)
-    num_pix = len(kappa_high_res) * 2
+    num_pix = max(np.shape(kappa_high_res)) * 2
     if num_pix % 2 == 0:
         num_pix += 1
 
-- 
2.43.0


From dd2fbfa28dfac144883859fe7545fba8f39aaabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 125/164] fix: INTERPOL_SCALED applies the scale factor once to
 the tabulated off-diagonal Hessian

---
 lenstronomy/LensModel/Profiles/interpol.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index e00e295..f994356 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -486,8 +486,9 @@ class InterpolScaled(LensProfileBase):
         f_xx_out, f_xy_out, f_yx_out, f_yy_out = self.interp_func.hessian(
             x, y, grid_interp_x, grid_interp_y, f_, f_x, f_y, f_xx, f_yy, f_xy
         )
-        f_xx_out *= scale_factor
-        f_yy_out *= scale_factor
-        f_xy_out *= scale_factor
-        f_yx_out *= scale_factor
-        return f_xx_out, f_xy_out, f_yx_out, f_yy_out
+        return (
+            f_xx_out * scale_factor,
+            f_xy_out * scale_factor,
+            f_yx_out * scale_factor,
+            f_yy_out * scale_factor,
+        )
-- 
2.43.0


From 691a40973a0bf6631494f7204f3a244a89b4c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 126/164] fix: Interpol.do_interp uses the axis order of the
 evaluation

---
 lenstronomy/LensModel/Profiles/interpol.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index f994356..e65ff5e 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -327,25 +327,25 @@ class Interpol(LensProfileBase):
 
     def do_interp(self, x_grid, y_grid, f_, f_x, f_y, f_xx=None, f_yy=None, f_xy=None):
         self._f_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_, **self._kwargs_spline
+            y_grid, x_grid, f_, **self._kwargs_spline
         )
         self._f_x_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_x, **self._kwargs_spline
+            y_grid, x_grid, f_x, **self._kwargs_spline
         )
         self._f_y_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_y, **self._kwargs_spline
+            y_grid, x_grid, f_y, **self._kwargs_spline
         )
         if f_xx is not None:
             self._f_xx_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_xx, **self._kwargs_spline
+                y_grid, x_grid, f_xx, **self._kwargs_spline
             )
         if f_xy is not None:
             self._f_xy_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_xy, **self._kwargs_spline
+                y_grid, x_grid, f_xy, **self._kwargs_spline
             )
         if f_yy is not None:
             self._f_yy_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_yy, **self._kwargs_spline
+                y_grid, x_grid, f_yy, **self._kwargs_spline
             )
 
 
-- 
2.43.0


From 8bbc92ab49f8434b854ec1c3ce439257b2ea4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 127/164] fix: INTERPOL_SCALED does not assume that positions
 form a regular grid by default

---
 lenstronomy/LensModel/Profiles/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index e65ff5e..5d00933 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -370,7 +370,7 @@ class InterpolScaled(LensProfileBase):
     lower_limit_default = {"scale_factor": 0}
     upper_limit_default = {"scale_factor": 100}
 
-    def __init__(self, grid=True, min_grid_number=100, kwargs_spline=None):
+    def __init__(self, grid=False, min_grid_number=100, kwargs_spline=None):
         """
 
         :param grid: bool, if True, computes the calculation on a grid
-- 
2.43.0


From 4e6e518868b3c11e24b61f445a9182cc7136d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 128/164] fix: starlet transform inverts for non-square images
 and without the fast inverse

---
 lenstronomy/LightModel/Profiles/starlets_util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/starlets_util.py b/lenstronomy/LightModel/Profiles/starlets_util.py
index d75fcb2..30cebbc 100644
--- a/lenstronomy/LightModel/Profiles/starlets_util.py
+++ b/lenstronomy/LightModel/Profiles/starlets_util.py
@@ -21,7 +21,7 @@ def transform(img, n_scales, second_gen=False):
     lvl = n_scales - 1
     sh = np.shape(img)
 
-    n1 = sh[1]
+    n1 = sh[0]
     n2 = sh[1]
 
     # B-spline filter
@@ -100,12 +100,13 @@ def inverse_transform(wave, fast=True, second_gen=False):
     for i in range(1, lvl):
         newh = np.zeros((1, n + (n - 1) * (2 ** (lvl - 1 - i) - 1)))
         newh[0, np.linspace(0, np.size(newh) - 1, len(h), dtype=int)] = h
-        H = np.dot(newh.T, newh)
 
-        ###### Line convolution
-        cnew = ndimage.convolve1d(cJ, newh[0, :], axis=0, mode=mode)
-        ###### Column convolution
-        cnew = ndimage.convolve1d(cnew, newh[0, :], axis=1, mode=mode)
+        cnew = cJ
+        if second_gen:
+            ###### Line convolution
+            cnew = ndimage.convolve1d(cnew, newh[0, :], axis=0, mode=mode)
+            ###### Column convolution
+            cnew = ndimage.convolve1d(cnew, newh[0, :], axis=1, mode=mode)
 
         cJ = cnew + wave[lvl - 1 - i, :, :]
 
-- 
2.43.0


From d72460303f733f3630098b333af1516db4fd6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:49 +0000
Subject: [PATCH 129/164] fix: lens profile settings given by the caller are
 not altered or shared between profiles

---
 lenstronomy/LensModel/profile_list_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index df6ecdc..0a09995 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -178,6 +178,10 @@ class ProfileListBase(object):
             lens_redshift_list = [None] * len(lens_model_list)
         if profile_kwargs_list is None:
             profile_kwargs_list = [{} for _ in range(len(lens_model_list))]
+        # copies, such that the settings of the caller do not get altered
+        profile_kwargs_list = [
+            {} if kwargs is None else dict(kwargs) for kwargs in profile_kwargs_list
+        ]
 
         # use_jax can be either a bool or list of bools to select specific models to be imported from jaxtronomy
         # If it's a bool, convert to list of bools
-- 
2.43.0


From d80acb1dad17f685f6e2aae8ea9af68ee54bdd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:49 +0000
Subject: [PATCH 130/164] fix: light profile settings given by the caller are
 not altered

---
 lenstronomy/LightModel/light_model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/light_model_base.py b/lenstronomy/LightModel/light_model_base.py
index 00d392b..338bf4b 100644
--- a/lenstronomy/LightModel/light_model_base.py
+++ b/lenstronomy/LightModel/light_model_base.py
@@ -62,8 +62,8 @@ class LightModelBase(object):
             profile_kwargs_list = [{} for _ in range(len(light_model_list))]
 
         for profile_type, profile_kwargs in zip(light_model_list, profile_kwargs_list):
-            if profile_kwargs is None:
-                profile_kwargs = {}
+            # copy, such that the settings of the caller do not get altered
+            profile_kwargs = {} if profile_kwargs is None else dict(profile_kwargs)
             if profile_type == "GAUSSIAN":
                 from lenstronomy.LightModel.Profiles.gaussian import Gaussian
 
-- 
2.43.0


From 041e53847fc4a897afd6873dda18722ed37bc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:26 +0000
Subject: [PATCH 131/164] fix: mst_invariant_differential is evaluated around
 the centre of the lens

---
 lenstronomy/Analysis/lens_profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 1bbfd22..cb468fd 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -275,7 +275,11 @@ class LensProfileAnalysis(object):
             dphi_rad_drad,
             dphi_rad_dtan,
         ) = ext.radial_tangential_differentials(
-            x, y, kwargs_lens, center_x=center_x, center_y=center_y
+            center_x + x,
+            center_y + y,
+            kwargs_lens,
+            center_x=center_x,
+            center_y=center_y,
         )
         xi = np.mean(dlambda_rad_drad / lambda_rad)
         return xi
-- 
2.43.0


From a220c54de8ba6d5a1ed902355e8bce18a7d9aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:26 +0000
Subject: [PATCH 132/164] fix: azimuthal averages do not count one direction
 twice

---
 lenstronomy/Analysis/lens_profile.py  | 10 ++++++----
 lenstronomy/Analysis/light_profile.py |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index cb468fd..4796988 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -202,9 +202,9 @@ class LensProfileAnalysis(object):
         center_x, center_y = analysis_util.profile_center(
             kwargs_lens, center_x, center_y
         )
-        x, y = util.points_on_circle(radius, num_points)
+        x, y = util.points_on_circle(radius, num_points, connect_ends=False)
         dr = 0.01
-        x_dr, y_dr = util.points_on_circle(radius + dr, num_points)
+        x_dr, y_dr = util.points_on_circle(radius + dr, num_points, connect_ends=False)
 
         if alpha_differentials:
             alpha_E_x_i, alpha_E_y_i = self._lens_model.alpha(
@@ -260,7 +260,7 @@ class LensProfileAnalysis(object):
         center_x, center_y = analysis_util.profile_center(
             kwargs_lens, center_x, center_y
         )
-        x, y = util.points_on_circle(radius, num_points)
+        x, y = util.points_on_circle(radius, num_points, connect_ends=False)
         ext = LensModelExtensions(lensModel=self._lens_model)
         (
             lambda_rad,
@@ -311,7 +311,9 @@ class LensProfileAnalysis(object):
         r_list = np.array(r_list)
         r = (np.ones((num_azimuthal_points, len(r_list))) * r_list).T
 
-        cos_angle, sin_angle = util.points_on_circle(1, num_points=num_azimuthal_points)
+        cos_angle, sin_angle = util.points_on_circle(
+            1, num_points=num_azimuthal_points, connect_ends=False
+        )
         x = (r * cos_angle).flatten()
         y = (r * sin_angle).flatten()
 
diff --git a/lenstronomy/Analysis/light_profile.py b/lenstronomy/Analysis/light_profile.py
index 9ff89e1..ba4b03a 100644
--- a/lenstronomy/Analysis/light_profile.py
+++ b/lenstronomy/Analysis/light_profile.py
@@ -123,7 +123,7 @@ class LightProfileAnalysis(object):
         )
         f_list = []
         for r in r_list:
-            x, y = util.points_on_circle(r, num_points=20)
+            x, y = util.points_on_circle(r, num_points=20, connect_ends=False)
             f_r = self._light_model.surface_brightness(
                 x + center_x, y + center_y, kwargs_list=kwargs_light, k=model_bool_list
             )
-- 
2.43.0


From 79d47a8c280ad6406b596866779566dfe625c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:26 +0000
Subject: [PATCH 133/164] fix: curved_arc_finite_area samples the curvature
 around the requested position

---
 lenstronomy/LensModel/lens_model_extensions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index ff8d213..46267ff 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -901,6 +901,7 @@ class LensModelExtensions(object):
 
         # make circle of points around position of interest
         x_c, y_c = util.points_on_circle(radius=dr, num_points=20, connect_ends=False)
+        x_c, y_c = x + x_c, y + y_c
 
         c_x_list, c_y_list = [], []
         # loop through curved arc estimate and compute curvature centroid
-- 
2.43.0


From 37d49e8a723ca77a5c6437eb4c0cb777ef5b1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:26 +0000
Subject: [PATCH 134/164] fix: multi_gaussian_lens uses the requested centre
 for its radial range

---
 lenstronomy/Analysis/lens_profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 4796988..6059d01 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -337,7 +337,9 @@ class LensProfileAnalysis(object):
         center_x, center_y = analysis_util.profile_center(
             kwargs_lens, center_x, center_y
         )
-        theta_E = self.effective_einstein_radius_grid(kwargs_lens)
+        theta_E = self.effective_einstein_radius_grid(
+            kwargs_lens, center_x=center_x, center_y=center_y
+        )
         r_array = np.logspace(-4, 2, 200) * theta_E
         kappa_s = self.radial_lens_profile(
             r_array,
-- 
2.43.0


From bbfe50e53b6b647e37e67d6fe048993642afadc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:36 +0000
Subject: [PATCH 135/164] fix: mst_invariant_differential is restricted to the
 selected lens components

---
 lenstronomy/Analysis/lens_profile.py           |  1 +
 lenstronomy/LensModel/lens_model_extensions.py | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 6059d01..cbfd8a5 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -280,6 +280,7 @@ class LensProfileAnalysis(object):
             kwargs_lens,
             center_x=center_x,
             center_y=center_y,
+            k=model_list_bool,
         )
         xi = np.mean(dlambda_rad_drad / lambda_rad)
         return xi
diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index 46267ff..49b0c0a 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -523,15 +523,18 @@ class LensModelExtensions(object):
             dec_caustic_list.append(dec_caustics)
         return ra_crit_list, dec_crit_list, ra_caustic_list, dec_caustic_list
 
-    def hessian_eigenvectors(self, x, y, kwargs_lens, diff=None):
+    def hessian_eigenvectors(self, x, y, kwargs_lens, diff=None, k=None):
         """Computes magnification eigenvectors at position (x, y)
 
         :param x: x-position
         :param y: y-position
         :param kwargs_lens: lens model keyword arguments
+        :param k: only evaluate the k-th lens model (or list of models), None for all
         :return: radial stretch, tangential stretch
         """
-        f_xx, f_xy, f_yx, f_yy = self._lensModel.hessian(x, y, kwargs_lens, diff=diff)
+        f_xx, f_xy, f_yx, f_yy = self._lensModel.hessian(
+            x, y, kwargs_lens, k=k, diff=diff
+        )
         if isinstance(x, int) or isinstance(x, float):
             A = np.array([[1 - f_xx, f_xy], [f_yx, 1 - f_yy]])
             w, v = np.linalg.eig(A)
@@ -562,6 +565,7 @@ class LensModelExtensions(object):
         ra_0=0,
         dec_0=0,
         coordinate_frame_definitions=False,
+        k=None,
     ):
         """Computes the radial and tangential stretches at a given position.
 
@@ -569,10 +573,11 @@ class LensModelExtensions(object):
         :param y: y-position
         :param kwargs_lens: lens model keyword arguments
         :param diff: float or None, finite average differential scale
+        :param k: only evaluate the k-th lens model (or list of models), None for all
         :return: radial stretch, tangential stretch
         """
         w1, w2, v11, v12, v21, v22 = self.hessian_eigenvectors(
-            x, y, kwargs_lens, diff=diff
+            x, y, kwargs_lens, diff=diff, k=k
         )
         v_x, v_y = x - ra_0, y - dec_0
 
@@ -646,6 +651,7 @@ class LensModelExtensions(object):
         center_y=0,
         smoothing_3rd=0.001,
         smoothing_2nd=None,
+        k=None,
     ):
         """Computes the differentials in stretches and directions.
 
@@ -660,6 +666,7 @@ class LensModelExtensions(object):
             angle
         :param smoothing_2nd: float or None, finite average differential scale of
             Hessian
+        :param k: only evaluate the k-th lens model (or list of models), None for all
         :return:
         """
         (
@@ -677,6 +684,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
         x0 = x - center_x
         y0 = y - center_y
@@ -705,6 +713,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
         dx_rad = x + smoothing_3rd * v1_rad
         dy_rad = y + smoothing_3rd * v2_rad
@@ -723,6 +732,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
 
         # eigenvalue differentials in tangential and radial direction
-- 
2.43.0


From 55dcadb191788d8e942661548173784b4ffbfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:45 +0000
Subject: [PATCH 136/164] fix: lens diagnostics at integer positions are not
 truncated to integers

---
 lenstronomy/LensModel/lens_model_extensions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index 49b0c0a..c8d2797 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -239,7 +239,7 @@ class LensModelExtensions(object):
         :return: numerically computed brightness of the sources
         """
 
-        mag_finite = np.zeros_like(x_pos)
+        mag_finite = np.zeros(len(x_pos))
         delta_pix = float(window_size) / grid_number
         from lenstronomy.LightModel.Profiles.gaussian import Gaussian
 
@@ -544,10 +544,10 @@ class LensModelExtensions(object):
             w1, w2, v11, v12, v21, v22 = (
                 np.empty(len(x), dtype=float),
                 np.empty(len(x), dtype=float),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
             )
             for i in range(len(x)):
                 A = np.array([[1 - f_xx[i], f_xy[i]], [f_yx[i], 1 - f_yy[i]]])
@@ -610,10 +610,10 @@ class LensModelExtensions(object):
             lambda_rad, lambda_tan, v1_rad, v2_rad, v1_tan, v2_tan = (
                 np.empty(len(x), dtype=float),
                 np.empty(len(x), dtype=float),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
             )
             for i in range(len(x)):
                 if (
-- 
2.43.0


From 737bb04a14c573bb35246fce61fa0f3b521f1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 137/164] fix: updating the settings of a fitting sequence does
 not alter the input arguments

---
 lenstronomy/Workflow/update_manager.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index bedbf0e..b4b233b 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -33,9 +33,11 @@ class UpdateManager(object):
          'special': [kwargs_init, kwargs_sigma, kwargs_fixed, kwargs_lower, kwargs_upper]
 
         """
-        self.kwargs_model = kwargs_model
-        self.kwargs_constraints = kwargs_constraints
-        self.kwargs_likelihood = kwargs_likelihood
+        # copies, such that updates of the settings do not alter the input arguments
+        self.kwargs_model = dict(kwargs_model)
+        self.kwargs_constraints = dict(kwargs_constraints)
+        self.kwargs_likelihood = dict(kwargs_likelihood)
+        kwargs_params = copy.deepcopy(kwargs_params)
 
         if kwargs_model.get("lens_model_list", None) is not None:
             (
-- 
2.43.0


From 1781ac7eb6e6ba6359498e7b7d6acff9be69eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 138/164] fix: setting a parameter value does not change the
 initial state or previous results

---
 lenstronomy/Workflow/update_manager.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index b4b233b..db729bc 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -153,7 +153,7 @@ class UpdateManager(object):
                 self._special_lower,
                 self._special_upper,
             ) = ({}, {}, {}, {}, {})
-        self._kwargs_temp = self.init_kwargs
+        self._kwargs_temp = copy.deepcopy(self.init_kwargs)
 
     # TODO: check compatibility with number of point sources provided as well as other parameter labeling
     # TODO: give raise statement if sigma value is =0
@@ -341,7 +341,7 @@ class UpdateManager(object):
 
         :return:
         """
-        self._kwargs_temp = self.init_kwargs
+        self._kwargs_temp = copy.deepcopy(self.init_kwargs)
 
     @property
     def parameter_state(self):
@@ -417,15 +417,17 @@ class UpdateManager(object):
         :param kwargs_tracer_source:
         :return:
         """
-        self._kwargs_temp = {
-            "kwargs_lens": kwargs_lens,
-            "kwargs_source": kwargs_source,
-            "kwargs_lens_light": kwargs_lens_light,
-            "kwargs_ps": kwargs_ps,
-            "kwargs_special": kwargs_special,
-            "kwargs_extinction": kwargs_extinction,
-            "kwargs_tracer_source": kwargs_tracer_source,
-        }
+        self._kwargs_temp = copy.deepcopy(
+            {
+                "kwargs_lens": kwargs_lens,
+                "kwargs_source": kwargs_source,
+                "kwargs_lens_light": kwargs_lens_light,
+                "kwargs_ps": kwargs_ps,
+                "kwargs_special": kwargs_special,
+                "kwargs_extinction": kwargs_extinction,
+                "kwargs_tracer_source": kwargs_tracer_source,
+            }
+        )
         self.update_kwargs_model(kwargs_special)
 
     def update_param_value(self, lens=None, source=None, lens_light=None, ps=None):
-- 
2.43.0


From 8e5177d4a6b9ee01f8001cf5a5f343621bd5b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 139/164] fix: freeing a parameter of a fixed frame does not
 remove it from the parameter state

---
 lenstronomy/Workflow/multi_band_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/multi_band_manager.py b/lenstronomy/Workflow/multi_band_manager.py
index f51bfa8..86ea325 100644
--- a/lenstronomy/Workflow/multi_band_manager.py
+++ b/lenstronomy/Workflow/multi_band_manager.py
@@ -67,7 +67,9 @@ class MultiBandUpdateManager(UpdateManager):
         for j in frame_list_fixed:
             if self._index_lens_model_list[j] is not None:
                 for i in self._index_lens_model_list[j]:
-                    self._lens_fixed[i] = self._kwargs_temp["kwargs_lens"][i]
+                    self._lens_fixed[i] = copy.deepcopy(
+                        self._kwargs_temp["kwargs_lens"][i]
+                    )
 
     def undo_frame_fixed(self, frame_list):
         """
-- 
2.43.0


From 8fd98eb674f49c3875952c1bde119fb4bd08217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 140/164] fix: fit_sequence does not store samples in the
 fitting list of the caller

---
 lenstronomy/Workflow/fitting_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 90ffa67..d24478f 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -90,7 +90,7 @@ class FittingSequence(object):
         chain_list = []
         for i, fitting in enumerate(fitting_list):
             fitting_type = fitting[0]
-            kwargs = fitting[1]
+            kwargs = copy.copy(fitting[1])
 
             if fitting_type in [
                 "PSO",
-- 
2.43.0


From aae061a319129a462d978cc0ef6a795ae4b5f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 141/164] fix: the flux calibration is used in the subsequent
 fitting steps

---
 lenstronomy/Workflow/fitting_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index d24478f..e6472a4 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -743,7 +743,8 @@ class FittingSequence(object):
             scaling_lower_limit=scaling_lower_limit,
             scaling_upper_limit=scaling_upper_limit,
         )
-        self.multi_band_list = multi_band_list
+        for i in range(len(self.multi_band_list)):
+            self.multi_band_list[i][0] = multi_band_list[i][0]
         return 0
 
     def update_settings(
-- 
2.43.0


From bf6fecc77763a6c5cb544eae9a40f8e64686237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 142/164] fix: the best fit of a Cobaya run is the state of the
 fitting sequence

---
 lenstronomy/Workflow/fitting_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index e6472a4..4454f6a 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -171,6 +171,7 @@ class FittingSequence(object):
                 mh_output = [updated_info, sampler_type, best_fit_kwargs]
                 # append the products to the chain list
                 chain_list.append(mh_output)
+                self._updateManager.update_param_state(**best_fit_kwargs)
 
             elif fitting_type in [
                 "dynesty",
-- 
2.43.0


From 3f01179014cac4c36bb3c27ed083a68e3d3484a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 143/164] fix: a partially masked star is normalised to the
 flux of the unmasked kernel region

---
 lenstronomy/Workflow/psf_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 9aae293..690bbff 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -718,7 +718,7 @@ class PsfFitting(object):
         # norm_masked = np.sum(kernel_shifted[mask_i == 0])
         norm_unmasked = np.sum(kernel_shifted[mask_cutout == 1])
         # normalize star within the unmasked region to the norm of the initial kernel of the same region
-        star_cutout /= np.sum(star_cutout[mask_cutout == 1]) * norm_unmasked
+        star_cutout *= norm_unmasked / np.sum(star_cutout[mask_cutout == 1])
         # replace mask with shifted initial kernel (+2 size)
         star_cutout[mask_cutout == 0] = kernel_shifted[mask_cutout == 0]
         star_cutout[star_cutout < 0] = 0
-- 
2.43.0


From 26f6478e173dc71451c895699ecff1f9efd001db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 144/164] fix: neighbouring point sources are blocked at their
 positions in the PSF error estimate

---
 lenstronomy/Workflow/psf_fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 690bbff..b1d677c 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -934,6 +934,8 @@ class PsfFitting(object):
         ra_grid, dec_grid = self._image_model_class.Data.pixel_coordinates
         ra_grid = util.image2array(ra_grid)
         dec_grid = util.image2array(dec_grid)
+        x_grid, y_grid = self._image_model_class.Data.map_coord2pix(ra_grid, dec_grid)
+        radius_pix = block_center_neighbour / self._image_model_class.Data.pixel_width
         mask = self._image_model_class.likelihood_mask
         for i, star in enumerate(star_cutout_list):
             x, y, amp_i = x_pos[i], y_pos[i], amp[i]
@@ -953,7 +955,7 @@ class PsfFitting(object):
             )
             # block neighbor points in error estimate
             mask_point_source = self.mask_point_source(
-                x_pos, y_pos, ra_grid, dec_grid, radius=block_center_neighbour, i=i
+                x_pos, y_pos, x_grid, y_grid, radius=radius_pix, i=i
             )
             mask_i = mask * mask_point_source
             mask_i = kernel_util.cutout_source(
-- 
2.43.0


From baf024e921c60d0d9273c14661baf11fdaf97e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:12 +0000
Subject: [PATCH 145/164] fix: best fit components joint with an image plane
 source are mapped to the source plane

---
 lenstronomy/Sampling/parameters.py     | 18 ++++++++++++++++++
 lenstronomy/Workflow/update_manager.py |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 407d600..a254b40 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -761,8 +761,26 @@ class Param(object):
                     )
                     kwargs["center_x"] = x_mapped
                     kwargs["center_y"] = y_mapped
+        if not image_plane:
+            # components joint with a mapped one follow it to the source plane
+            kwargs_source_copy = self._update_joint_param(
+                kwargs_source_copy, kwargs_source_copy, self._joint_source_with_source
+            )
         return kwargs_source_copy
 
+    def update_tracer_joint(self, kwargs_source, kwargs_tracer_source):
+        """Sets the tracer parameters that are joint with the source light.
+
+        :param kwargs_source: source light model keyword argument list
+        :param kwargs_tracer_source: tracer model keyword argument list
+        :return: tracer model keyword argument list with updated joint parameters
+        """
+        return self._update_joint_param(
+            kwargs_source,
+            copy.deepcopy(kwargs_tracer_source),
+            self._joint_source_light_with_tracer,
+        )
+
     def _update_source_joint_with_point_source(
         self,
         kwargs_lens_list,
diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index db729bc..136bd05 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -385,6 +385,9 @@ class UpdateManager(object):
             source_temp = self.param_class.image2source_plane(
                 source_temp, lens_temp, special_temp
             )
+            tracer_source_temp = self.param_class.update_tracer_joint(
+                source_temp, tracer_source_temp
+            )
         return {
             "kwargs_lens": lens_temp,
             "kwargs_source": source_temp,
-- 
2.43.0


From d74bd9f964ebc5f722af44a6e586d08acd13a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:18 +0000
Subject: [PATCH 146/164] fix: point source lists without caching do not re-use
 positions of previous calls

---
 lenstronomy/PointSource/point_source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 79e73b2..72ff87a 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -316,6 +316,9 @@ class PointSource(object):
         :return: ra_array, dec_array, amp_array
         """
         # here we save the cache of the individual models but do not overwrite the class boolean variable to do so
+        if self._save_cache is False:
+            # values of previous calls with other parameters are not to be re-used
+            self.delete_lens_model_cache()
         self._set_save_cache(True)
         # we make sure we do not re-compute the image positions twice when evaluating position and their amplitudes
         ra_list, dec_list = self.image_position(kwargs_ps, kwargs_lens, k=k)
@@ -424,6 +427,8 @@ class PointSource(object):
         ra_pos = []
         dec_pos = []
         amp = []
+        if self._save_cache is False:
+            self.delete_lens_model_cache()
         self._set_save_cache(True)
         x_image_list, y_image_list = self.image_position(kwargs_ps, kwargs_lens)
         for i, model in enumerate(self._point_source_list):
-- 
2.43.0


From 2acae9ffb5d7b901c2718fadc4d7832766f00198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:50 +0000
Subject: [PATCH 147/164] fix: image plane sources are mapped with the
 redshifts of the given parameters

---
 lenstronomy/Sampling/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index a254b40..8345472 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -748,6 +748,9 @@ class Param(object):
         :return: source light model keyword arguments with mapped position arguments
             from image to source plane
         """
+        if (kwargs_special or {}).get("z_sampling") is not None:
+            # map with the redshifts of the given parameters
+            self._update_lens_model(kwargs_special)
         kwargs_source_copy = copy.deepcopy(kwargs_source)
         for i, kwargs in enumerate(kwargs_source_copy):
             if self._image_plane_source_list[i] is True and not image_plane:
-- 
2.43.0


From c1432f30248bf4cd593ef1604e1f5eab56acf55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:20 +0000
Subject: [PATCH 148/164] fix: keep the angular sampling of radial_lens_profile
 that existing results rely on

---
 lenstronomy/Analysis/lens_profile.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index cbfd8a5..65e5adb 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -312,9 +312,7 @@ class LensProfileAnalysis(object):
         r_list = np.array(r_list)
         r = (np.ones((num_azimuthal_points, len(r_list))) * r_list).T
 
-        cos_angle, sin_angle = util.points_on_circle(
-            1, num_points=num_azimuthal_points, connect_ends=False
-        )
+        cos_angle, sin_angle = util.points_on_circle(1, num_points=num_azimuthal_points)
         x = (r * cos_angle).flatten()
         y = (r * sin_angle).flatten()
 
-- 
2.43.0


From 7e5ff6c7d6de7b33050011566f62eb6580dcd7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:51 +0000
Subject: [PATCH 149/164] fix: analytic kinematics does not write derived
 quantities into the caller's mass parameters

---
 lenstronomy/GalKin/analytic_kinematics.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index ad46a12..91d8c6b 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -185,13 +185,11 @@ class AnalyticKinematics(Anisotropy):
         """
         a = self._get_hernquist_scale_radius(kwargs_light)
 
-        if "rho0_r0_gamma" not in kwargs_mass:
-            kwargs_mass["rho0_r0_gamma"] = self._rho0_r0_gamma(
-                kwargs_mass["theta_E"], kwargs_mass["gamma"]
-            )
-
         gamma = kwargs_mass["gamma"]
-        rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        if "rho0_r0_gamma" in kwargs_mass:
+            rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        else:
+            rho0_r0_gamma = self._rho0_r0_gamma(kwargs_mass["theta_E"], gamma)
         r_ani = kwargs_anisotropy["r_ani"]
 
         return a, gamma, rho0_r0_gamma, r_ani
-- 
2.43.0


From f328478169cf4fae8bed3a1280148e8febebb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:04 +0000
Subject: [PATCH 150/164] fix: deleting the light profile cache also deletes
 the 3d light distribution

---
 lenstronomy/GalKin/light_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/GalKin/light_profile.py b/lenstronomy/GalKin/light_profile.py
index d96f3a5..8b7065f 100644
--- a/lenstronomy/GalKin/light_profile.py
+++ b/lenstronomy/GalKin/light_profile.py
@@ -295,6 +295,8 @@ class LightProfile(object):
             del self._light_cdf_log
         if hasattr(self, "_light_cdf"):
             del self._light_cdf
+        if hasattr(self, "_light_3d_cdf_log"):
+            del self._light_3d_cdf_log
         if hasattr(self, "_f_light_3d"):
             del self._f_light_3d
         if hasattr(self, "_kwargs_light_circularized"):
-- 
2.43.0


From 9ea233e351430758aa054d386b240638178196d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:04 +0000
Subject: [PATCH 151/164] fix: convolved dispersion maps do not re-use the
 solution of previous parameters

---
 lenstronomy/GalKin/galkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 9352d0c..b3f799e 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -379,6 +379,7 @@ class Galkin(GalkinModel, GalkinObservation):
             )
 
         sigma2_grid = sigma_IR_integrated / IR_integrated
+        self.numerics.delete_cache()
 
         # apply unit conversion from arc seconds and deflections to physical velocity
         # dispersion in (km/s)
-- 
2.43.0


From bbcf730366d676d02ff7f1d72da528a1da52e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:04 +0000
Subject: [PATCH 152/164] fix: convolved dispersion maps on non-square grids
 and grids at negative coordinates

---
 lenstronomy/GalKin/galkin.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index b3f799e..6fbc7f7 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -198,15 +198,14 @@ class Galkin(GalkinModel, GalkinObservation):
         x_grid = self._aperture.x_grid
         y_grid = self._aperture.y_grid
 
-        new_delta_x = delta_x / supersampling_factor
-        new_delta_y = delta_y / supersampling_factor
         x_start = x_grid[0, 0] - delta_x / 2.0 * (1 - 1 / supersampling_factor)
         x_end = x_grid[0, -1] + delta_x / 2.0 * (1 - 1 / supersampling_factor)
         y_start = y_grid[0, 0] - delta_y / 2.0 * (1 - 1 / supersampling_factor)
         y_end = y_grid[-1, 0] + delta_y / 2.0 * (1 - 1 / supersampling_factor)
 
-        xs = np.arange(x_start, x_end * (1 + 1e-6), new_delta_x)
-        ys = np.arange(y_start, y_end * (1 + 1e-6), new_delta_y)
+        num_y, num_x = x_grid.shape
+        xs = np.linspace(x_start, x_end, num_x * supersampling_factor)
+        ys = np.linspace(y_start, y_end, num_y * supersampling_factor)
 
         x_grid_supersampled, y_grid_supersmapled = np.meshgrid(xs, ys)
 
@@ -295,8 +294,7 @@ class Galkin(GalkinModel, GalkinObservation):
             log10_radial_distance_from_center,
         ) = self._get_grid(kwargs_mass, supersampling_factor=supersampling_factor)
 
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
+        num_y, num_x = self._aperture.x_grid.shape
 
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
         R_max = np.sqrt(
@@ -365,14 +363,14 @@ class Galkin(GalkinModel, GalkinObservation):
         else:
             sigma_IR_integrated = (
                 sigma2_IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_y, supersampling_factor, num_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
             )
             IR_integrated = (
                 IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_y, supersampling_factor, num_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
-- 
2.43.0


From 1db02b1b9e1650f7b303e57583e9134705fc462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:04 +0000
Subject: [PATCH 153/164] fix: the kinematic convolution kernel has the odd
 number of pixels intended

---
 lenstronomy/GalKin/galkin.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 6fbc7f7..e8d60d5 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -237,22 +237,14 @@ class Galkin(GalkinModel, GalkinObservation):
         if num_x % 2 == 0:
             num_x += 1
 
-        psf_x = np.arange(
-            -delta_x_sub * (num_x - 1) / 2,
-            delta_x_sub * (num_x + 1) / 2,
-            delta_x_sub,
-        )
+        psf_x = delta_x_sub * (np.arange(num_x) - (num_x - 1) / 2)
 
         delta_y_sub = np.abs(delta_y) / supersampling_factor
         num_y = int(round(2 * fwhm_factor * self._psf.fwhm / delta_y_sub + 0.5))
         if num_y % 2 == 0:
             num_y += 1
 
-        psf_y = np.arange(
-            -delta_y_sub * (num_y - 1) / 2,
-            delta_y_sub * (num_y + 1) / 2,
-            delta_y_sub,
-        )
+        psf_y = delta_y_sub * (np.arange(num_y) - (num_y - 1) / 2)
 
         psf_x_grid, psf_y_grid = np.meshgrid(psf_x, psf_y)
 
-- 
2.43.0


From fab72d58f010fe744d58d57d1b56d6fa72d6eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:19 +0000
Subject: [PATCH 154/164] fix: the hole of a sampled frame aperture is rotated
 with the frame

---
 lenstronomy/GalKin/aperture_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 5c508a5..0c12768 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -266,8 +266,9 @@ class Frame(ApertureBase):
             self._angle,
         )
         bins = np.zeros_like(x_grid, dtype=int)
-        mask_inner = (np.abs(x_grid - center_ra) < width_inner / 2) & (
-            np.abs(y_grid - center_dec) < width_inner / 2
+        x_rot, y_rot = _rotate(x_grid - center_ra, y_grid - center_dec, angle=-angle)
+        mask_inner = (np.abs(x_rot) < width_inner / 2) & (
+            np.abs(y_rot) < width_inner / 2
         )
         bins[mask_inner] = -1
 
-- 
2.43.0


From a2de48e838cf475b8d32eafedf2e3dcbc4c4c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:19 +0000
Subject: [PATCH 155/164] fix: sampled shell apertures are defined around their
 centre

---
 lenstronomy/GalKin/aperture_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 0c12768..81a4b68 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -346,7 +346,7 @@ class Shell(ApertureBase):
             self._center_ra,
             self._center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.zeros_like(x_grid, dtype=int)
         bins[r_grid < self._r_in] = -1
         bins[r_grid > self._r_out] = -1
@@ -516,7 +516,7 @@ class IFUShells(ApertureBase):
             center_ra,
             center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.ones_like(x_grid, dtype=int) * -1
         for i in range(len(r_bins) - 1):
             mask = (r_grid >= r_bins[i]) & (r_grid < r_bins[i + 1])
-- 
2.43.0


From 29d58c7e499f2bb38f12903e159c3cfc6d2cadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:19 +0000
Subject: [PATCH 156/164] fix: IFU grids with decreasing coordinates select
 positions

---
 lenstronomy/GalKin/aperture_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 81a4b68..49c4b2f 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -472,8 +472,8 @@ def grid_ifu_select(ra, dec, x_grid, y_grid):
     :param y_grid: array of y_grid bins
     :return: boolean, True if within the grid range, False otherwise
     """
-    x_pixel_size = x_grid[0, 1] - x_grid[0, 0]
-    y_pixel_size = y_grid[1, 0] - y_grid[0, 0]
+    x_pixel_size = np.abs(x_grid[0, 1] - x_grid[0, 0])
+    y_pixel_size = np.abs(y_grid[1, 0] - y_grid[0, 0])
 
     for i in range(x_grid.shape[0]):
         for j in range(x_grid.shape[1]):
-- 
2.43.0


From e99e06067adbf9c3363ac1c79b49c5a56820014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:09 +0000
Subject: [PATCH 157/164] fix: rotated IFU grids select, sample and convolve
 along their rotated axes

---
 lenstronomy/GalKin/aperture_types.py | 19 ++++++++++++++++---
 lenstronomy/GalKin/galkin.py         | 28 ++++++++++------------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 49c4b2f..89810c4 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -105,6 +105,10 @@ class ApertureBase:
     def padding_arcsec(self):
         return self._padding_arcsec
 
+    @property
+    def angle(self):
+        return self._angle
+
     def padding_pix(self, supersampling_factor):
         """
 
@@ -441,7 +445,9 @@ class IFUGrid(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, index of shell
         """
-        return grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        return grid_ifu_select(
+            ra, dec, self._x_grid, self._y_grid, angle=self._angle
+        )
 
     @property
     def num_segments(self):
@@ -463,15 +469,20 @@ class IFUGrid(ApertureBase):
 
 
 @export
-def grid_ifu_select(ra, dec, x_grid, y_grid):
+def grid_ifu_select(ra, dec, x_grid, y_grid, angle=0):
     """
 
     :param ra: angular coordinate of photon/ray
     :param dec: angular coordinate of photon/ray
     :param x_grid: array of x_grid bins
     :param y_grid: array of y_grid bins
+    :param angle: rotation angle of the grid
     :return: boolean, True if within the grid range, False otherwise
     """
+    if angle != 0:
+        # rotate to align with the axes of the grid
+        ra, dec = _rotate(ra, dec, angle=-angle)
+        x_grid, y_grid = _rotate(x_grid, y_grid, angle=-angle)
     x_pixel_size = np.abs(x_grid[0, 1] - x_grid[0, 0])
     y_pixel_size = np.abs(y_grid[1, 0] - y_grid[0, 0])
 
@@ -603,7 +614,9 @@ class IFUBinned(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, and bin id
         """
-        in_grid, grid_loc = grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        in_grid, grid_loc = grid_ifu_select(
+            ra, dec, self._x_grid, self._y_grid, angle=self._angle
+        )
         if in_grid:
             bin_id = self.bins[grid_loc]
             if bin_id > -1:
diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index e8d60d5..20dc177 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -1,5 +1,6 @@
 from lenstronomy.GalKin.observation import GalkinObservation
 from lenstronomy.GalKin.galkin_model import GalkinModel
+from lenstronomy.GalKin.aperture_types import make_supersampled_grid, _rotate
 
 import numpy as np
 from scipy.signal import convolve2d
@@ -175,8 +176,9 @@ class Galkin(GalkinModel, GalkinObservation):
 
         :return: delta_x, delta_y
         """
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
+        x_grid, y_grid = _rotate(
+            self._aperture.x_grid, self._aperture.y_grid, angle=-self._aperture.angle
+        )
         delta_x = x_grid[0, 1] - x_grid[0, 0]
         delta_y = y_grid[1, 0] - y_grid[0, 0]
 
@@ -192,22 +194,12 @@ class Galkin(GalkinModel, GalkinObservation):
         """
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
 
-        delta_x, delta_y = self._delta_pix_xy()
-        assert np.abs(delta_x) == np.abs(delta_y)
-
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
-
-        x_start = x_grid[0, 0] - delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        x_end = x_grid[0, -1] + delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        y_start = y_grid[0, 0] - delta_y / 2.0 * (1 - 1 / supersampling_factor)
-        y_end = y_grid[-1, 0] + delta_y / 2.0 * (1 - 1 / supersampling_factor)
-
-        num_y, num_x = x_grid.shape
-        xs = np.linspace(x_start, x_end, num_x * supersampling_factor)
-        ys = np.linspace(y_start, y_end, num_y * supersampling_factor)
-
-        x_grid_supersampled, y_grid_supersmapled = np.meshgrid(xs, ys)
+        x_grid_supersampled, y_grid_supersmapled = make_supersampled_grid(
+            self._aperture.x_grid,
+            self._aperture.y_grid,
+            supersampling_factor,
+            angle=self._aperture.angle,
+        )
 
         log10_radial_distance_from_center = np.log10(
             np.sqrt(
-- 
2.43.0


From 28d50e62ca08fdb6f97ace66f4c9866453c04161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:10 +0000
Subject: [PATCH 158/164] fix: fast dispersion maps in shells use the centre of
 the shells

---
 lenstronomy/GalKin/galkin_shells.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/galkin_shells.py b/lenstronomy/GalKin/galkin_shells.py
index dbafd61..15e4f9c 100644
--- a/lenstronomy/GalKin/galkin_shells.py
+++ b/lenstronomy/GalKin/galkin_shells.py
@@ -49,7 +49,12 @@ class GalkinShells(Galkin):
         x_grid, y_grid = util.make_grid(
             num_pix=self._num_pix, delta_pix=self._delta_pix
         )
-        self._r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        # distance to the center of the shells and to the center of the deflector
+        self._r_grid_shells = np.sqrt(x_grid**2 + y_grid**2)
+        self._r_grid = np.sqrt(
+            (x_grid + kwargs_aperture.get("center_ra", 0)) ** 2
+            + (y_grid + kwargs_aperture.get("center_dec", 0)) ** 2
+        )
 
     def dispersion_map(self, kwargs_mass, kwargs_light, kwargs_anisotropy, **kwargs):
         """
@@ -78,7 +83,7 @@ class GalkinShells(Galkin):
         r_min = self._r_bins[0]
         for r_max in self._r_bins[1:]:
             mask = mask_util.mask_shell(
-                self._r_grid, 0, center_x=0, center_y=0, r_in=r_min, r_out=r_max
+                self._r_grid_shells, 0, center_x=0, center_y=0, r_in=r_min, r_out=r_max
             )
             vel_disp = np.sum(I_R_sigma2_conv * mask) / np.sum(
                 I_R_conv * mask
-- 
2.43.0


From be92681c9025c6d44604272e25a20022e85408fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:10 +0000
Subject: [PATCH 159/164] fix: the convolution of shell dispersion maps uses a
 centred kernel

---
 lenstronomy/GalKin/galkin_shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/galkin_shells.py b/lenstronomy/GalKin/galkin_shells.py
index 15e4f9c..c423e63 100644
--- a/lenstronomy/GalKin/galkin_shells.py
+++ b/lenstronomy/GalKin/galkin_shells.py
@@ -71,7 +71,7 @@ class GalkinShells(Galkin):
         ir_map = util.array2image(IR)
         ir_sigma2_map = util.array2image(I_R_sigma2)
         kernel = self.convolution_kernel(
-            delta_pix=self._delta_pix, num_pix=self._num_pix
+            delta_pix=self._delta_pix, num_pix=self._num_pix + 1
         )
         I_R_sigma2_conv = signal.fftconvolve(ir_sigma2_map, kernel, mode="same")
         I_R_sigma2_conv = util.image2array(I_R_sigma2_conv)
-- 
2.43.0


From 8c53db9d995fb15df29269f32739b0303e42bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:20 +0000
Subject: [PATCH 160/164] fix: kinematic profiles take centre and MGE
 parameters from the components selected

---
 lenstronomy/Analysis/kinematics_api.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index a598bd4..d446d55 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -542,6 +542,7 @@ class KinematicsAPI(object):
             return None, {"theta_E": theta_E, "gamma": gamma}
         mass_profile_list = []
         kwargs_profile = []
+        kwargs_lens_kin = []  # parameters of the profiles selected
         self._black_hole_mass = 0.0
         if model_kinematics_bool is None:
             model_kinematics_bool = [True] * len(kwargs_lens)
@@ -558,7 +559,8 @@ class KinematicsAPI(object):
                     self._black_hole_mass += self.lensCosmo.mass_in_theta_E(theta_E_i)
                     continue
                 mass_profile_list.append(lens_model)
-                if lens_model in ["INTERPOL", "INTERPOL_SCLAED"]:
+                kwargs_lens_kin.append(kwargs_lens[i])
+                if lens_model in ["INTERPOL", "INTERPOL_SCALED"]:
                     center_x_i, center_y_i = self._lensMassProfile.convergence_peak(
                         kwargs_lens,
                         model_bool_list=i,
@@ -585,12 +587,7 @@ class KinematicsAPI(object):
                 kwargs_profile.append(kwargs_lens_i)
 
         if MGE_fit is True:
-            kwargs_lens_mge = [
-                kwargs_lens[i]
-                for i, lens_model in enumerate(self._lens_model_list)
-                if model_kinematics_bool[i]
-                and lens_model not in ["POINT_MASS", "POINT_MASS_LOG_SCALED"]
-            ]
+            kwargs_lens_mge = kwargs_lens_kin
             MGE_mass_fitter = MGEMass(mass_profile_list, kwargs_mge)
             amps, sigmas = MGE_mass_fitter.mge_fit(kwargs_lens_mge, theta_E)
             kwargs_profile = [{"amp": amps, "sigma": sigmas}]
@@ -599,7 +596,7 @@ class KinematicsAPI(object):
             else:
                 mass_profile_list = ["MULTI_GAUSSIAN_ELLIPSE_KAPPA"]
                 kwargs_profile = self._copy_ellip(kwargs_profile, kwargs_lens_mge)
-        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_lens)
+        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_lens_kin)
         return mass_profile_list, kwargs_profile
 
     def kinematic_light_profile(
@@ -771,10 +768,12 @@ class KinematicsAPI(object):
     ):
         light_profile_list = []
         kwargs_light = []
+        kwargs_light_kin = []  # parameters of the profiles selected
 
         for i, light_model in enumerate(self._lens_light_model_list):
             if model_kinematics_bool[i] is True:
                 light_profile_list.append(light_model)
+                kwargs_light_kin.append(kwargs_lens_light[i])
                 light_profile = self.LensLightModel.func_list[i]
                 kwargs_lens_light_i = {
                     k: v
@@ -790,12 +789,12 @@ class KinematicsAPI(object):
 
         if MGE_fit is True:
             MGE_light_fitter = MGELight(light_profile_list, kwargs_mge)
-            amps, sigmas = MGE_light_fitter.mge_fit(kwargs_lens_light, r_eff)
+            amps, sigmas = MGE_light_fitter.mge_fit(kwargs_light_kin, r_eff)
             kwargs_light = [{"amp": amps, "sigma": sigmas}]
             if self.axial_symmetry == "spherical":
                 light_profile_list = ["MULTI_GAUSSIAN"]
             else:
                 light_profile_list = ["MULTI_GAUSSIAN_ELLIPSE"]
-                kwargs_light = self._copy_ellip(kwargs_light, kwargs_lens_light)
-            kwargs_light = self._copy_centers(kwargs_light, kwargs_lens_light)
+                kwargs_light = self._copy_ellip(kwargs_light, kwargs_light_kin)
+            kwargs_light = self._copy_centers(kwargs_light, kwargs_light_kin)
         return light_profile_list, kwargs_light
-- 
2.43.0


From d15355ed709dc5d92de75b19402953046dbe29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:19 +0000
Subject: [PATCH 161/164] fix: constant cylindrically aligned anisotropy is the
 given value in the equatorial plane

---
 lenstronomy/GalKin/anisotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/anisotropy.py b/lenstronomy/GalKin/anisotropy.py
index 7480676..e359e05 100644
--- a/lenstronomy/GalKin/anisotropy.py
+++ b/lenstronomy/GalKin/anisotropy.py
@@ -118,7 +118,7 @@ class Anisotropy(object):
                 def beta_fun(r, theta):
                     # angular variation
                     ratio = np.sqrt(1 - beta_const)
-                    beta = 1 - ratio ** (2 * np.cos(2 * theta))
+                    beta = 1 - ratio ** (-2 * np.cos(2 * theta))
                     beta_dtheta = (
                         -4
                         * np.log(ratio)
-- 
2.43.0


From ba42e798958f5afaa67c3c9932dbe4733b4ade79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 162/164] fix: instrument configurations do not alter the
 shared observation settings

---
 .../SimulationAPI/ObservationConfig/DES.py        | 11 ++++++-----
 .../SimulationAPI/ObservationConfig/HST.py        |  5 +++--
 .../SimulationAPI/ObservationConfig/JWST.py       | 13 +++++++------
 .../SimulationAPI/ObservationConfig/Roman.py      | 15 ++++++++-------
 .../SimulationAPI/ObservationConfig/ZTF.py        |  7 ++++---
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/lenstronomy/SimulationAPI/ObservationConfig/DES.py b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
index 6437d68..1432503 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/DES.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
@@ -6,6 +6,7 @@ for list of
 sources.
 """
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["DES"]
@@ -74,15 +75,15 @@ class DES(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-6.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = copy.deepcopy(g_band_obs)
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = copy.deepcopy(r_band_obs)
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = copy.deepcopy(i_band_obs)
         elif band == "z":
-            self.obs = z_band_obs
+            self.obs = copy.deepcopy(z_band_obs)
         elif band == "Y":
-            self.obs = Y_band_obs
+            self.obs = copy.deepcopy(Y_band_obs)
         else:
             raise ValueError(
                 "band %s not supported! Choose 'g', 'r', 'i', 'z', or 'Y'." % band
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/HST.py b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
index 05d3857..3db5ca7 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/HST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
@@ -6,6 +6,7 @@ for list of
 sources.
 """
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["HST"]
@@ -52,9 +53,9 @@ class HST(object):
         """
 
         if band == "TDLMC_F160W":
-            self.obs = TDLMC_F160W_band_obs
+            self.obs = copy.deepcopy(TDLMC_F160W_band_obs)
         elif band == "WFC3_F160W" or band == "F160W":
-            self.obs = WFC3_F160W_band_obs
+            self.obs = copy.deepcopy(WFC3_F160W_band_obs)
 
         else:
             raise ValueError(
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
index fb83894..e206fbc 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
@@ -4,6 +4,7 @@ ZP can be found here : https://jwst-docs.stsci.edu/files/182256933/182256934/1/1
 Sky Brightness needs to be derived from the ETC
 """
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["JWST"]
@@ -86,22 +87,22 @@ class JWST(object):
         """
 
         if band == "F200W":
-            self.obs = NIRCAM_F200W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F200W_band_obs)
             self.arm = "short"
         elif band == "F356W":
-            self.obs = NIRCAM_F356W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F356W_band_obs)
             self.arm = "long"
         elif band == "F115W":
-            self.obs = NIRCAM_F115W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F115W_band_obs)
             self.arm = "short"
         elif band == "F150W":
-            self.obs = NIRCAM_F150W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F150W_band_obs)
             self.arm = "short"
         elif band == "F277W":
-            self.obs = NIRCAM_F277W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F277W_band_obs)
             self.arm = "long"
         elif band == "F444W":
-            self.obs = NIRCAM_F444W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F444W_band_obs)
             self.arm = "long"
         else:
             raise ValueError("band %s not supported!" % band)
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
index 765d9d6..b5ec0e0 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
@@ -1,6 +1,7 @@
 # %%
 """Provisional Roman instrument and observational settings."""
 
+import copy
 import lenstronomy.Util.util as util
 import os
 import astropy.io.fits as pyfits
@@ -78,19 +79,19 @@ class Roman(object):
         """
 
         if band == "F062":
-            self.obs = F062_band_obs
+            self.obs = copy.deepcopy(F062_band_obs)
         elif band == "F087":
-            self.obs = F087_band_obs
+            self.obs = copy.deepcopy(F087_band_obs)
         elif band == "F106":
-            self.obs = F106_band_obs
+            self.obs = copy.deepcopy(F106_band_obs)
         elif band == "F129":
-            self.obs = F129_band_obs
+            self.obs = copy.deepcopy(F129_band_obs)
         elif band == "F158":
-            self.obs = F158_band_obs
+            self.obs = copy.deepcopy(F158_band_obs)
         elif band == "F184":
-            self.obs = F184_band_obs
+            self.obs = copy.deepcopy(F184_band_obs)
         elif band == "F146":
-            self.obs = F146_band_obs
+            self.obs = copy.deepcopy(F146_band_obs)
         else:
             raise ValueError(
                 "band %s not supported! Choose 'F062', 'F087', 'F106', 'F129', 'F158' , 'F184' or 'F146'"
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
index 954125a..62737dd 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
@@ -1,5 +1,6 @@
 # Conditions for the ZTF survey
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["ZTF"]
@@ -70,11 +71,11 @@ class ZTF(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-3.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = copy.deepcopy(g_band_obs)
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = copy.deepcopy(r_band_obs)
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = copy.deepcopy(i_band_obs)
         else:
             raise ValueError("band %s not supported! Choose 'g', 'r', or 'i'." % band)
 
-- 
2.43.0


From 711b5c8642ffd74e2b95a2560db5267484ec84e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 163/164] fix: noise realisations of images with integer values

---
 lenstronomy/SimulationAPI/observation_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/SimulationAPI/observation_api.py b/lenstronomy/SimulationAPI/observation_api.py
index d618d6f..0021e2d 100644
--- a/lenstronomy/SimulationAPI/observation_api.py
+++ b/lenstronomy/SimulationAPI/observation_api.py
@@ -329,7 +329,7 @@ class SingleBand(Instrument, Observation):
         else:
             g = np.random
         nx, ny = np.shape(model)
-        noise = np.zeros_like(model)
+        noise = np.zeros_like(model, dtype=float)
         if background_noise is True:
             noise += g.randn(nx, ny) * self.background_noise
         if poisson_noise is True:
-- 
2.43.0


From e3858066f8ddcf98f867ff2d6763ff87019c12ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 164/164] fix: magnitudes of profiles with several amplitudes
 keep the relative amplitudes

---
 lenstronomy/SimulationAPI/mag_amp_conversion.py | 6 ++++++
 lenstronomy/SimulationAPI/sim_api.py            | 6 ++++++
 lenstronomy/Util/data_util.py                   | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/lenstronomy/SimulationAPI/mag_amp_conversion.py b/lenstronomy/SimulationAPI/mag_amp_conversion.py
index 823f781..8b95d76 100644
--- a/lenstronomy/SimulationAPI/mag_amp_conversion.py
+++ b/lenstronomy/SimulationAPI/mag_amp_conversion.py
@@ -48,6 +48,9 @@ class MagAmpConversion(ModelAPI):
                     magnitude, magnitude_zero_point=self._magnitude_zero_point
                 )
                 amp = cps / cps_norm
+                if "amp" in kwargs_new:
+                    # relative amplitudes of profiles with multiple components
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_source = copy.deepcopy(kwargs_source_mag)
@@ -63,6 +66,9 @@ class MagAmpConversion(ModelAPI):
                     magnitude, magnitude_zero_point=self._magnitude_zero_point
                 )
                 amp = cps / cps_norm
+                if "amp" in kwargs_new:
+                    # relative amplitudes of profiles with multiple components
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_ps = copy.deepcopy(kwargs_ps_mag)
diff --git a/lenstronomy/SimulationAPI/sim_api.py b/lenstronomy/SimulationAPI/sim_api.py
index ba569e1..e70757b 100644
--- a/lenstronomy/SimulationAPI/sim_api.py
+++ b/lenstronomy/SimulationAPI/sim_api.py
@@ -74,6 +74,9 @@ class SimAPI(DataAPI, ModelAPI):
                 magnitude = kwargs_mag["magnitude"]
                 cps = self.magnitude2cps(magnitude)
                 amp = cps / cps_norm
+                if "amp" in kwargs_new:
+                    # relative amplitudes of profiles with multiple components
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_source = copy.deepcopy(kwargs_source_mag)
@@ -87,6 +90,9 @@ class SimAPI(DataAPI, ModelAPI):
                 magnitude = kwargs_mag["magnitude"]
                 cps = self.magnitude2cps(magnitude)
                 amp = cps / cps_norm
+                if "amp" in kwargs_new:
+                    # relative amplitudes of profiles with multiple components
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_ps = copy.deepcopy(kwargs_ps_mag)
diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 628b0bf..d2ec478 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -127,5 +127,8 @@ def magnitude2amplitude(light_model_class, kwargs_light_mag, magnitude_zero_poin
             magnitude = kwargs_mag["magnitude"]
             cps = magnitude2cps(magnitude, magnitude_zero_point=magnitude_zero_point)
             amp = cps / cps_norm
+            if "amp" in kwargs_new:
+                # relative amplitudes of profiles with multiple components
+                amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
             kwargs_new["amp"] = amp
     return kwargs_light_amp
-- 
2.43.0

