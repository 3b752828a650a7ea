From e4b50c4fee0d70224e708bbd8a54864434f3e80d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 01/31] fix: Cartesian to Boyer-Lindquist conversion fails at x
 = 0 and near the polar axis

---
 src/einsteinpy/coordinates/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index dca3dd3..0ca5095 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -66,7 +66,9 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    hxy = np.hypot(x, y)
+    xa = np.sqrt(r**2 + alpha**2)
+    theta = np.arctan2(r * hxy, xa * z)
     phi = np.arctan2(y, x)
     dw_dt = 2 * (x * v_x + y * v_y + z * v_z)
     v_r = (1 / (2 * r)) * (
@@ -76,8 +78,10 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
             / (2 * np.sqrt((w**2) + (4 * (alpha**2) * (z**2))))
         )
     )
-    v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (1 / (1 + np.square(y / x))) * ((v_y * x - v_x * y) / (x**2))
+    v_th = (
+        xa * np.cos(theta) * (x * v_x + y * v_y) / hxy - r * np.sin(theta) * v_z
+    ) / (r**2 + (alpha * np.cos(theta)) ** 2)
+    v_p = (v_y * x - v_x * y) / hxy**2
 
     return t, r, theta, phi, v_r, v_th, v_p
 
@@ -91,7 +95,7 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    theta = np.arctan2(r * np.hypot(x, y), np.sqrt(r**2 + alpha**2) * z)
     phi = np.arctan2(y, x)
 
     return t, r, theta, phi
-- 
2.43.0


From 9ea87fc898b4135c3f2d24247acd4b7531b5ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 02/31] fix: Kerr-Newman metric ignores the charge Q of the
 black hole

---
 src/einsteinpy/metric/kerrnewman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..8a5ddc5 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -136,7 +136,7 @@ class KerrNewman(BaseMetric):
         r, th = x_vec[1], x_vec[2]
         M, a = self.M.value, self.a.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, self.Q.value)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -177,7 +177,7 @@ class KerrNewman(BaseMetric):
         r, th = x_vec[1], x_vec[2]
         M, a = self.M.value, self.a.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, self.Q.value)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From e9ab4d395539c0572fcc0a74ae39b98f400ed503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 03/31] fix: Kerr-Newman electromagnetic field loses the sign
 of Q

---
 src/einsteinpy/metric/kerrnewman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 8a5ddc5..66ed5fc 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -431,7 +431,7 @@ class KerrNewman(BaseMetric):
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
 
         A = np.zeros((4,), dtype=float)
@@ -483,7 +483,7 @@ class KerrNewman(BaseMetric):
         M, a, Q = self.M.value, self.a.value, self.Q.value
 
         alpha = super().alpha(M, a)
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
         # Partial derivatives of rho2
         drho2_dr = 2 * r
-- 
2.43.0


From b7bf659c01c398c1227f05f4e21db0e88bd9e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 04/31] fix: Lorentz force in Kerr-Newman f_vec contracts the
 wrong indices

---
 src/einsteinpy/metric/kerrnewman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 66ed5fc..1901533 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.value * (F_contra @ vec[4:] @ g_cov)
+        vals[4:] += self.q.value * (F_contra @ (g_cov @ vec[4:]))
 
         return vals
 
-- 
2.43.0


From 1d0353fc968b871d97cae71c9483390dd04a2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 05/31] fix: metrics and unit stripping ignore the unit of M,
 a, Q and q

---
 src/einsteinpy/metric/base_metric.py |  2 +-
 src/einsteinpy/metric/kerr.py        |  4 ++--
 src/einsteinpy/metric/kerrnewman.py  | 14 +++++++-------
 src/einsteinpy/units.py              |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..2514e5e 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -289,7 +289,7 @@ class BaseMetric:
             coordinate system, the metric object has been instantiated with
 
         """
-        system, M, a, Q = self.coords.system, self.M.value, self.a.value, self.Q.value
+        system, M, a, Q = self.coords.system, self.M.si.value, self.a.si.value, self.Q.si.value
 
         r_s = 2 * M * _G / _c**2
         alpha = BaseMetric.alpha(M, a)
diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e13592a..cd9c38c 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -125,7 +125,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
@@ -166,7 +166,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 1901533..3bca322 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,9 +134,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a = self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, self.Q.value)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, self.Q.si.value)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -175,9 +175,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a = self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, self.Q.value)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, self.Q.si.value)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] += self.q.value * (F_contra @ (g_cov @ vec[4:]))
+        vals[4:] += self.q.si.value * (F_contra @ (g_cov @ vec[4:]))
 
         return vals
 
@@ -427,7 +427,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
@@ -480,7 +480,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         r_Q = Q * np.sqrt(_G * _Cc) / _c**2
diff --git a/src/einsteinpy/units.py b/src/einsteinpy/units.py
index 1780568..39f5992 100644
--- a/src/einsteinpy/units.py
+++ b/src/einsteinpy/units.py
@@ -24,7 +24,7 @@ def primitive(*args):
     primitive_args = []
     for item in args:
         if isinstance(item, u.Quantity):
-            primitive_args.append(item.value)
+            primitive_args.append(item.si.value)
         else:
             primitive_args.append(item)
 
-- 
2.43.0


From 1574e0060a281421890c892f12508f33fca4cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 06/31] fix: Shadow truncates the mass to an integer when
 locating turning points

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index f09adab..dd2755a 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -48,7 +48,7 @@ class Shadow:
         Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
         """
         # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * int(self.mass.value) / r_tp)) - i
+        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0


From 217c380493d153a2ea8edf8b49e39f28ae5d1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 07/31] fix: initial momentum ignores off-diagonal terms of
 user-supplied metrics

---
 src/einsteinpy/geodesic/utils.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/einsteinpy/geodesic/utils.py b/src/einsteinpy/geodesic/utils.py
index 5408211..a95650a 100644
--- a/src/einsteinpy/geodesic/utils.py
+++ b/src/einsteinpy/geodesic/utils.py
@@ -41,13 +41,8 @@ def _P(g, g_prms, q, p, time_like=True):
     P = np.array([0.0, *p])
 
     A = guu[0, 0]
-    B = 2 * guu[0, 3] * P[3]
-    C = (
-        guu[1, 1] * P[1] * P[1]
-        + guu[2, 2] * P[2] * P[2]
-        + guu[3, 3] * P[3] * P[3]
-        + int(time_like)
-    )
+    B = 2 * (guu[0, 1:] @ P[1:])
+    C = guu[1:, 1:] @ P[1:] @ P[1:] + int(time_like)
 
     P[0] = (-B + np.sqrt(B**2 - 4 * A * C)) / (2 * A)
 
-- 
2.43.0


From e70cccd8dd345154598c3bf008d15c4307917af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 08/31] fix: RK4naive ignores t_bound and the direction it
 implies

---
 src/einsteinpy/integrators/runge_kutta.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..c8dce53 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -30,9 +30,10 @@ class RK4naive:
         self.t = t0
         self.y = y0
         self.t_bound = t_bound
-        self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 * (self.t_bound >= t0) - 1 * (self.t_bound < t0)
+        # Signed increment, so that ``t_bound`` decides the direction
+        self.step_size = self.direction * abs(stepsize)
 
     def step(self):
         """
-- 
2.43.0


From 63b1672908635726b173d5bfcc7462dc1c8a4c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 09/31] fix: Tensor.subs drops the index configuration and
 fails unless the order is 2

---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..530dad7 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -234,7 +234,7 @@ class Tensor:
             Tensor with substituted values
 
         """
-        return Tensor(self.tensor().subs(*args))
+        return Tensor(self.tensor().subs(*args), config=self.config, name=self.name)
 
     def simplify(self, set_self=True):
         """
-- 
2.43.0


From da4b85f4ed168e1193a01caec64b51284f0f8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 10/31] fix: lorentz_transform uses the matrix itself, not its
 inverse, on covariant indices

---
 src/einsteinpy/symbolic/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 530dad7..0b8830b 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -437,12 +437,14 @@ class BaseRelativityTensor(Tensor):
 
         """
         tm = sympy.Array(transformation_matrix)
+        # Covariant indices transform with the inverse of the matrix
+        tm_inv = sympy.Array(sympy.Matrix(tm.tolist()).inv())
         t = self.tensor()
         for i in range(self.order):
             if self.config[i] == "u":
                 t = simplify(tensorcontraction(tensorproduct(tm, t), (1, 2 + i)))
             else:
-                t = simplify(tensorcontraction(tensorproduct(tm, t), (0, 2 + i)))
+                t = simplify(tensorcontraction(tensorproduct(tm_inv, t), (0, 2 + i)))
             dest = list(range(len(t.shape)))
             dest.remove(0)
             dest.insert(i, 0)
-- 
2.43.0


From d00217d61cd39aac15bc3b15dd9d6f290fc5c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 11/31] fix: derived tensors miss free variables, so
 tensor_lambdify fails on them

---
 src/einsteinpy/symbolic/tensor.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 0b8830b..de0d907 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -111,8 +111,6 @@ def tensor_product(tensor1, tensor2, i=None, j=None):
         syms=tensor1.syms,
         config=newconfig,
         parent_metric=tensor1.parent_metric,
-        variables=tensor1.variables,
-        functions=tensor1.functions,
     )
 
 
@@ -455,7 +453,5 @@ class BaseRelativityTensor(Tensor):
             syms=self.syms,
             config=self.config,
             parent_metric=None,
-            variables=self.variables,
-            functions=self.functions,
             name=_change_name(self.name, context="__lt"),
         )
-- 
2.43.0


From a6f77d7a1bc7acd3b6131b6cdb1a3544dcbc5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 12/31] fix: StressEnergyMomentumTensor.change_config returns
 an EinsteinTensor

---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index 81a87de..b1eb724 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -92,7 +92,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         if metric is None:
             raise Exception("Parent Metric not found, can't do configuration change")
         new_tensor = _change_config(self, metric, newconfig)
-        new_obj = EinsteinTensor(
+        new_obj = StressEnergyMomentumTensor(
             new_tensor,
             self.syms,
             config=newconfig,
-- 
2.43.0


From 251a77661a935965fd240a1a8a281f064773501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 13/31] fix: DeSitter metric depends on x instead of the time
 coordinate

---
 src/einsteinpy/symbolic/predefined/de_sitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/de_sitter.py b/src/einsteinpy/symbolic/predefined/de_sitter.py
index e8798bb..3d8cb9c 100644
--- a/src/einsteinpy/symbolic/predefined/de_sitter.py
+++ b/src/einsteinpy/symbolic/predefined/de_sitter.py
@@ -42,7 +42,7 @@ def DeSitter():
 
     """
     coords = symbols("t x y z")
-    t = coords[1]
+    t = coords[0]
     al = symbols("alpha")
     expr = exp(2 * t / al)
     metric = diag(-1, expr, expr, expr).tolist()
-- 
2.43.0


From 93c9e29d17705dd53d1d55b68528e95e90cd7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 14/31] fix: BesselGravitationalWave swaps order and argument
 of the Bessel functions

---
 .../symbolic/predefined/bessel_gravitational_wave.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
index 18f5b47..86a77ca 100644
--- a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
+++ b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
@@ -24,14 +24,14 @@ def BesselGravitationalWave(C=symbols("C")):
     t, rho, ph, z = coords
 
     # Useful helper functions, these wrap the Bessel functions that are used. C is some constant here
-    U = C * besselj(rho, 0) * cos(t)
+    U = C * besselj(0, rho) * cos(t)
     K = (
         (1 / 2)
         * (C**2)
         * rho
         * (
-            (rho * ((besselj(rho, 0) ** 2) + (besselj(rho, 1) ** 2)))
-            - (2 * besselj(rho, 0) * besselj(rho, 1) * (cos(t) ** 2))
+            (rho * ((besselj(0, rho) ** 2) + (besselj(1, rho) ** 2)))
+            - (2 * besselj(0, rho) * besselj(1, rho) * (cos(t) ** 2))
         )
     )
 
-- 
2.43.0


From c99a9730d06a09d6bd7c82370256562f07e539f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 15/31] fix: AlcubierreWarp does not square y and z in the
 distance from the bubble

---
 src/einsteinpy/symbolic/predefined/alcubierre_warp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
index 9a63dd2..a52a190 100644
--- a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
+++ b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
@@ -40,7 +40,7 @@ def AlcubierreWarp(
     """
     coords = symbols("t x y z")
     t, x, y, z = coords
-    r_s = sqrt((x - x_s) ** 2 + y + z)
+    r_s = sqrt((x - x_s) ** 2 + y**2 + z**2)
     f = (tanh(sigma * (r_s + R)) - tanh(sigma * (r_s - R))) / (2 * tanh(sigma * R))
 
     v2 = v**2
-- 
2.43.0


From fbb2503c33447dd45bc432b1df7cd3d17eb128d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 16/31] fix: inverse metric loses precision when SI components
 span many orders of magnitude

---
 src/einsteinpy/metric/base_metric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 2514e5e..80d7f08 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -391,7 +391,12 @@ class BaseMetric:
 
         """
         g_cov = self.metric_covariant(x_vec)
-        g_contra = np.linalg.inv(g_cov)
+        # In SI units, the components span tens of orders of magnitude,
+        # so the matrix is equilibrated, before it is inverted
+        row_max = np.abs(g_cov).max(axis=1)
+        scale = 1 / np.sqrt(np.where(row_max > 0, row_max, 1))
+        scale = np.outer(scale, scale)
+        g_contra = np.linalg.inv(g_cov * scale) * scale
 
         return g_contra
 
-- 
2.43.0


From aa6c0e74392a5dc37cc85d3134cde3c743247270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 17/31] fix: Shadow drops most rays because the turning point
 search starts far from the root

---
 src/einsteinpy/rays/shadow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index dd2755a..a99cc1d 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -25,7 +25,11 @@ class Shadow:
         self.z = list()
         self.bfin = list()
         for i in self.b:
-            root = newton(self._root_equation, 0.1, args=(i,))
+            # Only rays above the critical impact parameter have a turning point,
+            # which lies just inside the impact parameter
+            if i <= self.b_crit.value:
+                continue
+            root = newton(self._root_equation, i, args=(i,))
             if np.isreal(root):
                 self.bfin.append(i)
                 self.z.append([i, np.real(root)])
-- 
2.43.0


From 1491fc688e4cb662a34a1283d3cd7ac97692659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 18/31] fix: sign of the frame dragging term in the radial
 derivative of the Kerr metric's g_phi_phi

---
 src/einsteinpy/metric/kerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index cd9c38c..e6fa0ad 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -182,7 +182,7 @@ class Kerr(BaseMetric):
             dgdx[1, 0, 0] = -tmp * _c**2
             dgdx[1, 1, 1] = -(dsdr - (sg * (dddr / dl))) / dl
             dgdx[1, 2, 2] = -dsdr
-            dgdx[1, 3, 3] = (-2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
+            dgdx[1, 3, 3] = -(2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
                 np.sin(th) ** 2
             )
             dgdx[1, 0, 3] = dgdx[1, 3, 0] = _c * alpha * (np.sin(th) ** 2) * tmp
-- 
2.43.0


From 693d947d60ad9d773ee7c7843d260059b94e4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 19/31] fix: a dual number with value zero raised to the power
 zero fails with ZeroDivisionError

---
 src/einsteinpy/utils/dual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/einsteinpy/utils/dual.py b/src/einsteinpy/utils/dual.py
index b136e79..8f2e867 100644
--- a/src/einsteinpy/utils/dual.py
+++ b/src/einsteinpy/utils/dual.py
@@ -104,6 +104,9 @@ class DualNumber:
         return DualNumber(-self.val, -self.deriv)
 
     def __pow__(self, power):
+        if power == 0:
+            return DualNumber(1.0, 0.0)
+
         return DualNumber(
             self.val**power, self.deriv * power * self.val ** (power - 1)
         )
-- 
2.43.0


From 1719d30f3f0558143b1eac79461a533225d301d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 20/31] fix: integrators of order 6 and 8 use one set of
 Yoshida constants for all levels and are only second order

---
 src/einsteinpy/integrators/fantasy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..8f66aed 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -207,7 +207,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(4)
         step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -228,7 +228,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(6)
         step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -249,7 +249,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(8)
         step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-- 
2.43.0


From 9163287762a2c7a9d6816951b433d339f3aa1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 21/31] fix: RK45 passed 2-D columns to the right-hand side and
 rejected scalar y0

---
 src/einsteinpy/integrators/runge_kutta.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index c8dce53..9d189d4 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -83,7 +83,6 @@ class RK45(integrate.RK45):
             Absolute tolerance, defaults to rtol/0.8e3
 
         """
-        vectorized = not isinstance(y0, float)
         self._t_bound = t_bound
         if rtol is None:
             rtol = 0.2 * stepsize
@@ -92,13 +91,12 @@ class RK45(integrate.RK45):
         super(RK45, self).__init__(
             fun=fun,
             t0=t0,
-            y0=y0,
+            y0=np.atleast_1d(y0),
             t_bound=self._t_bound,
             first_step=0.8 * stepsize,
             max_step=8.0 * stepsize,
             rtol=rtol,
             atol=atol,
-            vectorized=vectorized,
         )
 
     def step(self):
-- 
2.43.0


From 9cbd2589371b0d2f3c2db9d378f8f78f0b02b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 22/31] fix: tensor_lambdify failed on special functions numpy
 lacks (Bessel metric)

---
 src/einsteinpy/symbolic/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index de0d907..e331e41 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -411,11 +411,11 @@ class BaseRelativityTensor(Tensor):
 
         if len(args) == 0:
             numeric_arr = sympy.lambdify(
-                [*self.syms, *self.variables], self.arr, modules="numpy"
+                [*self.syms, *self.variables], self.arr, modules=["scipy", "numpy"]
             )
             arg_list = (*self.syms, *self.variables)
         else:
-            numeric_arr = sympy.lambdify(args, self.arr, modules="numpy")
+            numeric_arr = sympy.lambdify(args, self.arr, modules=["scipy", "numpy"])
             arg_list = tuple(args)
         return arg_list, numeric_arr
 
-- 
2.43.0


From 2eafd0bd2dea0ae59b872351fa412fe1213bc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 23/31] fix: plotters draw the ergosphere with the spin not
 squared and, in 3D, as a function of the azimuth

---
 src/einsteinpy/plotting/geodesic/interactive.py | 4 ++--
 src/einsteinpy/plotting/geodesic/static.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..3e70468 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -65,7 +65,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -120,7 +120,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..d79366c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -92,7 +92,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -144,7 +144,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
-- 
2.43.0


From 3569128b6463d9a8688cde2ca979c51bef3f39ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 24/31] fix: animated geodesics never show the last point of
 the trajectory

---
 src/einsteinpy/plotting/geodesic/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index d79366c..84fc61f 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -354,8 +354,8 @@ class StaticGeodesicPlotter:
         (line,) = self.ax.plot(data[0, 0:1], data[1, 0:1], data[2, 0:1])
 
         def _update(num, data, line):
-            line.set_data(data[:2, :num])
-            line.set_3d_properties(data[2, :num])
+            line.set_data(data[:2, : num + 1])
+            line.set_3d_properties(data[2, : num + 1])
 
             return (line,)
 
-- 
2.43.0


From b52fc8e9b04a1f945585f589d62158e70e393543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 25/31] fix: StaticGeodesicPlotter saves and labels whichever
 figure is current instead of its own

---
 src/einsteinpy/plotting/geodesic/static.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 84fc61f..1154327 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -384,7 +384,7 @@ class StaticGeodesicPlotter:
         fontsize = max(figsize) + 1.5
         if self.ax.name == "3d":
             self.ax.view_init(azim=azim, elev=elev)
-        plt.legend(prop={"size": fontsize})
+        self.ax.legend(prop={"size": fontsize})
 
         plt.show()
 
@@ -411,4 +411,6 @@ class StaticGeodesicPlotter:
         if self.ax.name != "3d" and name == "Geodesic.png":
             name = "Parametric.png"
 
+        # ``savefig`` saves the current figure, which may be another plotter's
+        plt.figure(self.fig.number)
         plt.savefig(name)
-- 
2.43.0


From 49deddb2b2fb41576727efe20d29bc84106caff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 26/31] fix: SchwarzschildEmbedding is nan for masses so large
 that the start coincides with r = 3M

---
 .../hypersurface/schwarzschildembedding.py           | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/einsteinpy/hypersurface/schwarzschildembedding.py b/src/einsteinpy/hypersurface/schwarzschildembedding.py
index 164be8a..c8bcc6f 100644
--- a/src/einsteinpy/hypersurface/schwarzschildembedding.py
+++ b/src/einsteinpy/hypersurface/schwarzschildembedding.py
@@ -39,7 +39,9 @@ class SchwarzschildEmbedding:
         self.units_list = [u.kg * 10e22, u.m / M.to(u.kg * 10e22).value]
         M = M.to(self.units_list[0])
         self.M = M
-        self.r_init = (((3 * self.M.value + 0.0001) / self.M.value) * u.m).to(
+        # The offset has to stay significant next to large masses
+        offset = max(0.0001, 1e-9 * self.M.value)
+        self.r_init = (((3 * self.M.value + offset) / self.M.value) * u.m).to(
             self.units_list[1]
         )
 
@@ -60,11 +62,9 @@ class SchwarzschildEmbedding:
 
         """
         R = r / np.sqrt(1 - (2 * self.M.value / r))
-        num_one = 1 - (3 * self.M.value / r)
-        num_two = np.sqrt(
-            ((4 * self.M.value * r - 9 * self.M.value * self.M.value) * R)
-            / (r - 3 * self.M.value) ** 2
-        )
+        # (1 - 3M / r) / |r - 3M|, without the removable singularity at r = 3M
+        num_one = np.where(r < 3 * self.M.value, -1, 1) / r
+        num_two = np.sqrt((4 * self.M.value * r - 9 * self.M.value * self.M.value) * R)
         deno = np.sqrt(1 - (2 * self.M.value / r)) ** 3
 
         return num_one * num_two / deno
-- 
2.43.0


From 6bafa6f0ed630f003914d042801fd133010105f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 27/31] fix: Shadow searches turning points with an absolute
 tolerance and fails for large masses

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index a99cc1d..f0b0b01 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -29,7 +29,7 @@ class Shadow:
             # which lies just inside the impact parameter
             if i <= self.b_crit.value:
                 continue
-            root = newton(self._root_equation, i, args=(i,))
+            root = newton(self._root_equation, i, args=(i,), tol=1e-9 * i)
             if np.isreal(root):
                 self.bfin.append(i)
                 self.z.append([i, np.real(root)])
-- 
2.43.0


From e49e8495a9200c9d141dc9a0cdfc0fcdfe186d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 28/31] fix: plotters ignore the charge of Kerr-Newman holes
 when drawing horizon and ergosphere

---
 .../plotting/geodesic/interactive.py          | 35 ++++++++++++-----
 src/einsteinpy/plotting/geodesic/static.py    | 39 +++++++++++++------
 2 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index 3e70468..ea7e543 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -26,7 +26,16 @@ class InteractiveGeodesicPlotter:
         self.bh_colors = bh_colors
         self.draw_ergosphere = draw_ergosphere
 
-    def _draw_bh(self, a):
+    @staticmethod
+    def _spin_charge(geodesic):
+        """
+        Returns the dimensionless spin and charge of the Black Hole
+
+        """
+        charged = geodesic.metric_name == "KerrNewman"
+        return geodesic.metric_params[0], geodesic.metric_params[1] if charged else 0.0
+
+    def _draw_bh(self, a, Q=0.0):
         """
         Plots the Black Hole
 
@@ -35,6 +44,9 @@ class InteractiveGeodesicPlotter:
         a : float
             Dimensionless Spin Parameter of the Black Hole
             ``0 <= a <= 1``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         colorscale_H = [(0, self.bh_colors[0]), (1, self.bh_colors[0])]
@@ -44,7 +56,7 @@ class InteractiveGeodesicPlotter:
         THETA, PHI = np.meshgrid(theta, phi)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(PHI) * np.cos(THETA)
         YH = rh_outer * np.sin(PHI) * np.sin(THETA)
@@ -65,7 +77,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -84,7 +96,7 @@ class InteractiveGeodesicPlotter:
                 )
             )
 
-    def _draw_bh_2D(self, a, figsize=(6, 6)):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 2D
 
@@ -96,12 +108,15 @@ class InteractiveGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         theta = np.linspace(0, 2 * np.pi, 50)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(theta)
         YH = rh_outer * np.cos(theta)
@@ -120,7 +135,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -183,8 +198,8 @@ class InteractiveGeodesicPlotter:
         Y = traj[:, 2]
         Z = traj[:, 3]
 
-        a = geodesic.metric_params[0]
-        self._draw_bh(a)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh(a, Q=Q)
         self.fig.add_trace(
             go.Scatter3d(
                 x=X,
@@ -247,8 +262,8 @@ class InteractiveGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh_2D(a, figsize, Q)
 
         traj = geodesic.trajectory[1]
         A = coordinates[0]
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 1154327..3966ba0 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -43,7 +43,16 @@ class StaticGeodesicPlotter:
                 PendingDeprecationWarning,
             )
 
-    def _draw_bh(self, a, figsize=(6, 6)):
+    @staticmethod
+    def _spin_charge(geodesic):
+        """
+        Returns the dimensionless spin and charge of the Black Hole
+
+        """
+        charged = geodesic.metric_name == "KerrNewman"
+        return geodesic.metric_params[0], geodesic.metric_params[1] if charged else 0.0
+
+    def _draw_bh(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 3D
 
@@ -55,6 +64,9 @@ class StaticGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         self.fig, self.ax = plt.subplots(figsize=figsize)
@@ -69,7 +81,7 @@ class StaticGeodesicPlotter:
         THETA, PHI = np.meshgrid(theta, phi)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(PHI) * np.cos(THETA)
         YH = rh_outer * np.sin(PHI) * np.sin(THETA)
@@ -92,7 +104,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -113,7 +125,7 @@ class StaticGeodesicPlotter:
             surface2._facecolors2d = surface2._facecolor3d
             surface2._edgecolors2d = surface2._edgecolor3d
 
-    def _draw_bh_2D(self, a, figsize=(6, 6)):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 2D
 
@@ -125,6 +137,9 @@ class StaticGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         self.fig, self.ax = plt.subplots(figsize=figsize)
@@ -133,7 +148,7 @@ class StaticGeodesicPlotter:
         theta = np.linspace(0, 2 * np.pi, 50)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(theta)
         YH = rh_outer * np.cos(theta)
@@ -144,7 +159,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -194,8 +209,8 @@ class StaticGeodesicPlotter:
                 f"Invalid aspect type. Expected one of {aspects}. Received '{aspect}'."
             )
 
-        a = geodesic.metric_params[0]
-        self._draw_bh(a, figsize)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh(a, figsize, Q)
 
         traj = geodesic.trajectory[1]
         x = traj[:, 1]
@@ -243,8 +258,8 @@ class StaticGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh_2D(a, figsize, Q)
 
         traj = geodesic.trajectory[1]
         A = coordinates[0]
@@ -330,8 +345,8 @@ class StaticGeodesicPlotter:
             Picks a random color by default
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh(a)
+        a, Q = self._spin_charge(geodesic)
+        self._draw_bh(a, Q=Q)
 
         traj = geodesic.trajectory
         x = traj[1][:, 1]
-- 
2.43.0


From 72541475777b22e98d502bd77849bd17ef0bd293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 29/31] fix: descriptive names of symbolic constants are lost
 when another constant of that name is made or one is copied

---
 src/einsteinpy/symbolic/constants.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/constants.py b/src/einsteinpy/symbolic/constants.py
index d704211..7c2a39a 100644
--- a/src/einsteinpy/symbolic/constants.py
+++ b/src/einsteinpy/symbolic/constants.py
@@ -23,10 +23,15 @@ class SymbolicConstant(Symbol):
 
         """
 
-        instance = super(SymbolicConstant, cls).__new__(cls, name, **assumptions)
+        cls._sanitize(assumptions, cls)
+        # Not from the cache of symbols, whose instances are shared by name
+        instance = Symbol.__xnew__(cls, name, **assumptions)
         instance._descriptive_name = descriptive_name
         return instance
 
+    def __getnewargs_ex__(self):
+        return (self.name, self._descriptive_name), self._assumptions_orig
+
     @property
     def descriptive_name(self):
         """
-- 
2.43.0


From 04a3f793ab8c31562d98054b32b8386105f8544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 30/31] fix: right-hand side of the geodesic equation was
 truncated for integer states

---
 src/einsteinpy/metric/kerr.py          | 2 +-
 src/einsteinpy/metric/kerrnewman.py    | 2 +-
 src/einsteinpy/metric/schwarzschild.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e6fa0ad..40182fc 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -341,7 +341,7 @@ class Kerr(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=np.result_type(vec, float))
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 3bca322..f61a7c0 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -372,7 +372,7 @@ class KerrNewman(BaseMetric):
         F_contra = self.em_tensor_contravariant(vec[:4])
         g_cov = self.metric_covariant(vec[:4])
 
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=np.result_type(vec, float))
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/schwarzschild.py b/src/einsteinpy/metric/schwarzschild.py
index d8226df..58562cd 100644
--- a/src/einsteinpy/metric/schwarzschild.py
+++ b/src/einsteinpy/metric/schwarzschild.py
@@ -208,7 +208,7 @@ class Schwarzschild(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=np.result_type(vec, float))
 
         vals[:4] = vec[4:]
         vals[4] = -2 * chl[0, 0, 1] * vec[4] * vec[5]
-- 
2.43.0


From fbe1cf0faade4cfd7cf75409a266e4a31e90883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 31/31] fix: comparing a dual number with a plain number failed

---
 src/einsteinpy/utils/dual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/utils/dual.py b/src/einsteinpy/utils/dual.py
index 8f2e867..fced113 100644
--- a/src/einsteinpy/utils/dual.py
+++ b/src/einsteinpy/utils/dual.py
@@ -95,7 +95,10 @@ class DualNumber:
         return DualNumber(other, 0).__truediv__(self)
 
     def __eq__(self, other):
-        return (self.val == other.val) and (self.deriv == other.deriv)
+        if isinstance(other, DualNumber):
+            return (self.val == other.val) and (self.deriv == other.deriv)
+
+        return (self.val == other) and (self.deriv == 0)
 
     def __ne__(self, other):
         return not (self == other)
-- 
2.43.0

