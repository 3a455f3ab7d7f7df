From 1bb39bba8084ab41ba8b4da57963f0917802b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 01/28] fix: apply the parallax to light-delayed positions

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index a303a81..c94b788 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -394,7 +394,9 @@ class KeplerianOrbit:
 
         """
         if light_delay:
-            return self._get_retarded_position(a, t, parallax=None, _pad=_pad)
+            return self._get_retarded_position(
+                a, t, parallax=parallax, _pad=_pad
+            )
 
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
         if self.ecc is None:
-- 
2.43.0


From 0bce8232f183dc6f32e1a8b3f90e97b8bb4682f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 02/28] fix: sign of the line-of-sight acceleration in the
 light delay

---
 src/exoplanet/orbits/keplerian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c94b788..8237fce 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -444,8 +444,9 @@ class KeplerianOrbit:
         # True position of the body
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
-        # Component of the acceleration in the z direction
-        az = -(angvel**2) * (a / r) ** 3 * z
+        # Component of the acceleration in the z direction; like 'vz' this is
+        # positive away from the observer
+        az = angvel**2 * (a / r) ** 3 * z
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From fd3f558ac19c67cab06351700915c00d598297db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 03/28] fix: support one exposure time per timestamp in
 in_transit

---
 src/exoplanet/orbits/keplerian.py | 3 +++
 src/exoplanet/orbits/simple.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 8237fce..721204e 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -766,6 +766,9 @@ class KeplerianOrbit:
             t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
 
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index afbb087..3eec5b0 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -98,6 +98,9 @@ class SimpleTransitOrbit:
             x = (r + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             tol += 0.5 * texp
         mask = pt.any(pt.abs(dt) < tol, axis=-1)
         return pt.arange(t.size)[mask]
-- 
2.43.0


From 0537f3317e69ebb773ff672e9b2b923ba017095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 04/28] fix: reject circular orbits with a duration and 'a' or
 no period

---
 src/exoplanet/orbits/keplerian.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 721204e..538ac72 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -111,6 +111,16 @@ class KeplerianOrbit:
 
         daordtau = None
         if ecc is None and duration is not None:
+            if a is not None:
+                raise ValueError(
+                    "only one of 'a' and 'duration' can be given for a "
+                    "circular orbit"
+                )
+            if period is None:
+                raise ValueError(
+                    "'period' must be provided for a circular orbit with a "
+                    "'duration'"
+                )
             if r_star is None:
                 r_star = as_tensor_variable(1.0)
             if b is None:
-- 
2.43.0


From 85ffeef8bb22b941d5d8fd41bb7d884f3f035371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 05/28] fix: convert the units of the inputs of a circular
 orbit with a duration

---
 src/exoplanet/orbits/keplerian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 538ac72..2552e8c 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -128,12 +128,18 @@ class KeplerianOrbit:
                     "'b' must be provided for a circular orbit with a "
                     "'duration'"
                 )
+            duration = as_tensor_variable(to_unit(duration, u.day))
+            period = as_tensor_variable(to_unit(period, u.day))
+            r_star = as_tensor_variable(to_unit(r_star, u.R_sun))
+            b = as_tensor_variable(b)
             if ror is None:
                 warnings.warn(
                     "When using the 'duration' parameter in KeplerianOrbit, "
                     "the 'ror' parameter should also be provided.",
                     UserWarning,
                 )
+            else:
+                ror = as_tensor_variable(ror)
             aor, daordtau = get_aor_from_transit_duration(
                 duration, period, b, ror=ror
             )
-- 
2.43.0


From 8fee1df5bfe31894fb71953df83f6e45b9eeb828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 06/28] fix: impact parameter implied by the duration of an
 eccentric orbit

---
 src/exoplanet/orbits/keplerian.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 2552e8c..2e216b5 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -256,12 +256,19 @@ class KeplerianOrbit:
             assert self.ecc is not None
 
             self.duration = as_tensor_variable(to_unit(duration, u.day))
-            c = pt.sin(np.pi * self.duration * incl_factor / self.period)
-            c2 = c * c
-            aor = self.a_planet / self.r_star
             esinw = self.ecc * self.sin_omega
+            # Equations 14 and 16 from Winn (2010)
+            c = pt.sin(
+                np.pi
+                * self.duration
+                * (1 + esinw)
+                / (pt.sqrt(ome2) * self.period)
+            )
+            c2 = c * c
+            aor = self.a / self.r_star
+            opk2 = (1 + as_tensor_variable(0.0 if ror is None else ror)) ** 2
             self.b = pt.sqrt(
-                (aor**2 * c2 - 1)
+                (aor**2 * c2 - opk2)
                 / (
                     c2 * esinw**2
                     + 2 * c2 * esinw
-- 
2.43.0


From 5a500a2c7fdeba1111a71c14948b701b36074e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 07/28] fix: light delay for orbits with transit timing
 variations

---
 src/exoplanet/orbits/ttv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 4194a08..c1385c6 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -172,10 +172,13 @@ class TTVOrbit(KeplerianOrbit):
             for i, tts in enumerate(self.all_transit_times)
         ]
 
-    def _get_model_dt(self, t):
+    def _get_model_dt(self, t, _pad=True):
         vals = []
         for i in range(len(self.ttvs)):
-            inds = pt.extra_ops.searchsorted(self._bin_edges[i], t)
+            # If the times aren't padded, there is already one column of
+            # times for each planet
+            ti = t if _pad else t[..., i]
+            inds = pt.extra_ops.searchsorted(self._bin_edges[i], ti)
             vals.append(self._bin_values[i][inds])
         return pt.stack(vals, -1)
 
@@ -184,4 +187,4 @@ class TTVOrbit(KeplerianOrbit):
         # stretching the time axis around each transit
         if _pad:
             return pt.shape_padright(t) - self._get_model_dt(t)
-        return t - self._get_model_dt(t)
+        return t - self._get_model_dt(t, _pad=False)
-- 
2.43.0


From 73143a2492576767d357720766a4cb1e1578ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 08/28] fix: use the timing period for the expected times of
 unobserved transits

---
 src/exoplanet/orbits/ttv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index c1385c6..2c7fcaf 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -151,7 +151,9 @@ class TTVOrbit(KeplerianOrbit):
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.period[i] * pt.arange(inds.max() + 1)
+            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
+                inds.max() + 1
+            )
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From b8882126d0db72ed5fb3644d46e4b7c1f9e37675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 09/28] fix: include an expected transit at the end of the
 window

---
 src/exoplanet/orbits/ttv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 2c7fcaf..218d95d 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -26,7 +26,7 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
     for period, t0 in zip(periods, t0s):
         min_ind = np.floor((min_time - t0) / period)
         max_ind = np.ceil((max_time - t0) / period)
-        times = t0 + period * np.arange(min_ind, max_ind, 1)
+        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
         times = times[(min_time <= times) & (times <= max_time)]
         transit_times.append(times)
     return transit_times
-- 
2.43.0


From 02eb4215ddd7095f1ec949fbb00a8a08ac316179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 10/28] fix: the first grid point is within the bounds of the
 interpolation

---
 src/exoplanet/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index e0c0bd6..b2f964b 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -39,7 +39,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     for n, grid in enumerate(points):
         x = coords[..., n]
         i = pt.extra_ops.searchsorted(grid, x) - 1
-        out_of_bounds |= (i < 0) | (i >= grid.shape[0] - 1)
+        out_of_bounds |= (x < grid[0]) | (i >= grid.shape[0] - 1)
         i = pt.clip(i, 0, grid.shape[0] - 2)
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
-- 
2.43.0


From b8a42848d62c604d4dfd900cc2a63d0297a1ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 11/28] fix: interpolate grids with more than one output per
 point

---
 src/exoplanet/interp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index b2f964b..f694db7 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -49,10 +49,16 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
         weight = pt.ones(coords.shape[:-1])
         for ei, i, yi in zip(edge_indices, indices, norm_distances):
             weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
-        result += values[edge_indices] * weight
+        result += values[edge_indices] * pt.shape_padright(
+            weight, values.ndim - ndim
+        )
 
     if fill_value is not None:
-        result = pt.switch(out_of_bounds, fill_value, result)
+        result = pt.switch(
+            pt.shape_padright(out_of_bounds, values.ndim - ndim),
+            fill_value,
+            result,
+        )
 
     return result
 
-- 
2.43.0


From 91e9458183166e0d26491fea30640a72a169cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 12/28] fix: initial value of the second coordinate of the unit
 disk

---
 src/exoplanet/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 9c3d8cc..c04f599 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -67,7 +67,7 @@ def unit_disk(name_x, name_y, **kwargs):
     x2 = pm.Uniform(
         f"__{name_y}_unit_disk",
         **_with_initval(
-            initval=initval[1] * np.sqrt(1 - initval[0] ** 2), **kwargs
+            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
         ),
     )
     norm = pt.sqrt(1 - x1**2)
-- 
2.43.0


From c89dabd42325ac26a03766130057788b9bdc2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 13/28] fix: index of the peaks in a periodogram

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 39d07fe..1be82b2 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -146,7 +146,7 @@ def find_peaks(freq, power, max_peaks=0):
         freq0 = w[1] * sigma2
         peaks.append(
             dict(
-                index=i + 1,
+                index=i,
                 log_power=w[2] + 0.5 * freq0**2 / sigma2,
                 period=1.0 / freq0,
                 period_uncert=np.sqrt(sigma2 / freq0**4),
-- 
2.43.0


From 9646897bef5d4bcbf16d9b1f8e57e6ffddcb831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 14/28] fix: honor minimum_period in bls_estimator

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 1be82b2..9cd6f43 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -357,7 +357,7 @@ def bls_estimator(
         the key ``peaks``.
 
     """
-    kwargs["minimum_period"] = kwargs.get("minimim_period", min_period)
+    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
     kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
 
     x_ref = 0.5 * (np.min(x) + np.max(x))
-- 
2.43.0


From 58cccbab3e5dc806022633bc8c5a3f84bde96600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 15/28] fix: semi-amplitudes of measurements with units and no
 uncertainties

---
 src/exoplanet/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 9cd6f43..3399542 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -64,9 +64,9 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
 
     """
     if yerr is None:
-        ivar = np.ones_like(y)
+        ivar = np.ones(np.shape(y))
     else:
-        ivar = 1.0 / yerr**2
+        ivar = 1.0 / u.Quantity(yerr, unit=u.m / u.s) ** 2
 
     periods = u.Quantity(np.atleast_1d(periods), unit=u.day)
     if t0s is not None:
-- 
2.43.0


From 953c0cc36bf1abf0e2b3e239ea5898620ce51996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 16/28] fix: cite the rebound entries by the keys in their
 bibliography

---
 src/exoplanet/citations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/citations.py b/src/exoplanet/citations.py
index df8fea7..4f1a1f3 100644
--- a/src/exoplanet/citations.py
+++ b/src/exoplanet/citations.py
@@ -346,7 +346,7 @@ publisher={PeerJ Inc.}
 """,
     ),
     "rebound": (
-        ("exoplanet:rebound",),
+        ("rebound",),
         r"""
 @ARTICLE{rebound,
        author = {{Rein}, H. and {Liu}, S. -F.},
@@ -368,7 +368,7 @@ archivePrefix = {arXiv},
 """,
     ),
     "reboundias15": (
-        ("exoplanet:reboundias15",),
+        ("reboundias15",),
         r"""
 @ARTICLE{reboundias15,
        author = {{Rein}, Hanno and {Spiegel}, David S.},
@@ -412,7 +412,7 @@ author = {{Van Eylen}, Vincent and {Albrecht}, Simon and {Huang}, Xu and
 """,
     ),
     "reboundx": (
-        ("exoplanet:reboundx",),
+        ("tamayo2020reboundx",),
         r"""
 @article{tamayo2020reboundx,
    title  = {REBOUNDx: a library for adding conservative and dissipative forces
-- 
2.43.0


From 3b2cdeec8392340a5003b92194ca8b52d6afb8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 17/28] fix: accept array-like parameters in SimpleTransitOrbit

---
 src/exoplanet/orbits/simple.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 3eec5b0..f1e83a3 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -1,7 +1,5 @@
 __all__ = ["SimpleTransitOrbit"]
 
-import numpy as np
-
 from exoplanet.compat import tensor as pt
 from exoplanet.utils import as_tensor_variable
 
@@ -29,8 +27,9 @@ class SimpleTransitOrbit:
         self.r_star = as_tensor_variable(r_star)
 
         self._b_norm = self.b * self.r_star
-        x2 = r_star**2 * ((1 + ror) ** 2 - b**2)
-        self.speed = 2 * np.sqrt(x2) / duration
+        ror = as_tensor_variable(ror)
+        x2 = self.r_star**2 * ((1 + ror) ** 2 - self.b**2)
+        self.speed = 2 * pt.sqrt(x2) / self.duration
 
         self._half_period = 0.5 * self.period
         self._ref_time = self.t0 - self._half_period
-- 
2.43.0


From 1bd934e41e31f7f2adafe1fbffdfb9de1a3306a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 18/28] fix: refuse light delay for the planets of a
 SimpleTransitOrbit

---
 src/exoplanet/orbits/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index f1e83a3..ad17708 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -39,7 +39,7 @@ class SimpleTransitOrbit:
         return nothing, nothing, nothing
 
     def get_planet_position(self, t, light_delay=False):
-        return self.get_relative_position(t, light_delay=False)
+        return self.get_relative_position(t, light_delay=light_delay)
 
     def get_relative_position(self, t, light_delay=False):
         """The planets' positions relative to the star
-- 
2.43.0


From 7a069988e171548ff968a5234285f5cd956e1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 19/28] fix: place a single exposure time sample at
 mid-exposure for any order

---
 src/exoplanet/light_curves/limb_dark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index efc6e55..f8c9021 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -183,7 +183,7 @@ class LimbDarkLightCurve:
             stencil = np.ones(oversample)
 
             # Construct the exposure time integration stencil
-            if order == 0:
+            if order == 0 or (oversample == 1 and order in (1, 2)):
                 dt = np.linspace(-0.5, 0.5, 2 * oversample + 1)[1:-1:2]
             elif order == 1:
                 dt = np.linspace(-0.5, 0.5, oversample)
-- 
2.43.0


From 92e6704aff1f3c173cf9ac2f8a617f6aec4b02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 20/28] fix: Jacobians of a_star and a_planet with respect to
 the duration

---
 src/exoplanet/orbits/keplerian.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 2e216b5..7c382f5 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -167,12 +167,12 @@ class KeplerianOrbit:
         if daordtau is not None:
             dadtau = self.r_star * daordtau
             self.jacobians["duration"]["a"] = dadtau
-            self.jacobians["duration"]["a_star"] = (
-                dadtau * self.m_planet / self.m_total
-            )
-            self.jacobians["duration"]["a_planet"] = (
-                -dadtau * self.m_star / self.m_total
-            )
+            # The total mass scales as a**3 at fixed period, so the ratio
+            # m_planet / m_total contributes a factor of -3 to the derivative
+            # of a_star, and a_planet = a_star - a
+            dastardtau = -2 * dadtau * self.m_planet / self.m_total
+            self.jacobians["duration"]["a_star"] = dastardtau
+            self.jacobians["duration"]["a_planet"] = dastardtau - dadtau
 
             # rho = 3 * pi * (a/R)**3 / (G * P**2)
             # -> drho / d(a/R) = 9 * pi * (a/R)**2 / (G * P**2)
-- 
2.43.0


From f8a591d59546fd7cffaf6485caaa3f2d9e8d788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 21/28] fix: secondary eclipses of orbits with several planets

---
 src/exoplanet/light_curves/secondary_eclipse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/secondary_eclipse.py b/src/exoplanet/light_curves/secondary_eclipse.py
index b3ca3e5..897d395 100644
--- a/src/exoplanet/light_curves/secondary_eclipse.py
+++ b/src/exoplanet/light_curves/secondary_eclipse.py
@@ -1,5 +1,6 @@
 __all__ = ["SecondaryEclipseLightCurve"]
 
+from exoplanet.compat import tensor as pt
 from exoplanet.light_curves.limb_dark import LimbDarkLightCurve
 from exoplanet.utils import as_tensor_variable
 
@@ -55,7 +56,7 @@ class SecondaryEclipseLightCurve:
         )
         lc2 = self.secondary.get_light_curve(
             orbit=orbit2,
-            r=orbit.r_star,
+            r=orbit.r_star + pt.zeros_like(r),
             t=t,
             texp=texp,
             oversample=oversample,
-- 
2.43.0


From 5c3a083529a9f22317272f3ccb10b4d620c31860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 22/28] fix: interpolated light curves of a single planet given
 by vectors of length 1

---
 src/exoplanet/light_curves/interpolated.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/light_curves/interpolated.py b/src/exoplanet/light_curves/interpolated.py
index 876dfd7..5ab5e84 100644
--- a/src/exoplanet/light_curves/interpolated.py
+++ b/src/exoplanet/light_curves/interpolated.py
@@ -86,11 +86,14 @@ class InterpolatedLightCurve:
                 use_in_transit=use_in_transit,
                 light_delay=light_delay,
             )
-            mn = orbit.t0
-            mx = orbit.t0 + orbit.period
+            # A single planet can have scalar parameters or vectors of length 1
+            t0 = pt.reshape(orbit.t0, ())
+            period = pt.reshape(orbit.period, ())
+            mn = t0
+            mx = t0 + period
             return interp(
                 0,
-                pt.mod(t - orbit.t0, orbit.period) + orbit.t0,
+                pt.mod(t - t0, period) + t0,
                 mn,
                 mx,
                 (mx - mn) / (self.num_phase + 1),
-- 
2.43.0


From 07cd23462af4a380b442718799789e658a6cd7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 23/28] fix: default initial value of quad_limb_dark for any
 shape

---
 src/exoplanet/distributions/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index c04f599..4d21670 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -84,7 +84,11 @@ def quad_limb_dark(name, **kwargs):
     """
     add_citations_to_model(("kipping13",), kwargs.get("model", None))
 
-    u = kwargs.pop("initval", kwargs.pop("testval", [np.sqrt(0.5), 0.0]))
+    shape = kwargs.get("shape", ())
+    u = kwargs.pop(
+        "initval",
+        kwargs.pop("testval", [np.full(shape, np.sqrt(0.5)), np.zeros(shape)]),
+    )
     u1 = u[0]
     u2 = u[1]
     kwargs["lower"] = 0.0
-- 
2.43.0


From 9d0ee4d80be6627cfbfe8e84aab37ff035cab439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 24/28] fix: default initial value of bounded eccentricity
 priors for any shape

---
 src/exoplanet/distributions/eccentricity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 0ef5e01..7149b79 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -85,8 +85,11 @@ def kipping13(
             lower = 0.0 if lower is None else lower
             upper = 1.0 if upper is None else upper
             if ecc is None:
+                midpoint = 0.5 * (lower + upper) + np.zeros(
+                    kwargs.get("shape", ())
+                )
                 kwargs["initval"] = kwargs.pop(
-                    "initval", kwargs.pop("testval", 0.5 * (lower + upper))
+                    "initval", kwargs.pop("testval", midpoint)
                 )
                 return _truncate(
                     name,
-- 
2.43.0


From 0cd1cfebd1786d95279769e7ab31ec8bf32bb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 25/28] fix: refuse ttvs and transit_times given together

---
 src/exoplanet/orbits/ttv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 218d95d..1e1140e 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -76,6 +76,10 @@ class TTVOrbit(KeplerianOrbit):
             raise ValueError(
                 "one of 'ttvs' or 'transit_times' must be " "defined"
             )
+        if ttvs is not None and transit_times is not None:
+            raise ValueError(
+                "only one of 'ttvs' and 'transit_times' can be given"
+            )
         if ttvs is not None:
             self.ttvs = [as_tensor_variable(ttv, ndim=1) for ttv in ttvs]
             if transit_inds is None:
-- 
2.43.0


From 83bb9086b4d3c58b60df6929708e13cd5ab8472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:07 +0000
Subject: [PATCH 26/28] fix: acceleration of the star of a massless planet

---
 src/exoplanet/orbits/keplerian.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 7c382f5..05e21e2 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -704,13 +704,13 @@ class KeplerianOrbit:
 
     def _get_acceleration(self, a, m, t):
         sinf, cosf = self._get_true_anomaly(t)
-        K = self.K0 * m
+        # This is K**2 / a, without dividing by the semimajor axis of the star
+        # which vanishes for a massless planet
+        K2_a = self.K0**2 * m * self.m_total / self.a
         if self.ecc is None:
-            factor = -(K**2) / a
+            factor = -K2_a
         else:
-            factor = (
-                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
-            )
+            factor = K2_a * (self.ecc * cosf + 1) ** 2 / (self.ecc**2 - 1)
         return self._rotate_vector(factor * cosf, factor * sinf)
 
     def get_planet_acceleration(self, t):
-- 
2.43.0


From b321afec4b36f6c20fe0e59e12250ff9591acbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:07 +0000
Subject: [PATCH 27/28] fix: light delay of the star of a massless planet

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 05e21e2..2fe6095 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -455,10 +455,12 @@ class KeplerianOrbit:
         # in the z direction
         angvel = 2 * np.pi / self.period
         if self.ecc is None:
+            a_r = 1.0
             r = a
             vamp = angvel * a
             vz = vamp * self.sin_incl * cosf
         else:
+            a_r = (1 + self.ecc * cosf) / (1.0 - self.ecc**2)
             r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
             vamp = angvel * a / pt.sqrt(1 - self.ecc**2)
             cwf = self.cos_omega * cosf - self.sin_omega * sinf
@@ -469,7 +471,7 @@ class KeplerianOrbit:
 
         # Component of the acceleration in the z direction; like 'vz' this is
         # positive away from the observer
-        az = angvel**2 * (a / r) ** 3 * z
+        az = angvel**2 * a_r**3 * z
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From c7525e1768d832fe1cce1a2af6df28d95bd49861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:07 +0000
Subject: [PATCH 28/28] fix: reference anomaly of an orbit transiting exactly
 at apastron

---
 src/exoplanet/orbits/keplerian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 2fe6095..a6ef94d 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -218,10 +218,9 @@ class KeplerianOrbit:
             else:
                 raise ValueError("both e and omega must be provided")
 
-            opsw = 1 + self.sin_omega
-            E0 = 2 * pt.arctan2(
-                pt.sqrt(1 - self.ecc) * self.cos_omega,
-                pt.sqrt(1 + self.ecc) * opsw,
+            E0 = pt.arctan2(
+                pt.sqrt(1 - self.ecc**2) * self.cos_omega,
+                self.ecc + self.sin_omega,
             )
             self.M0 = E0 - self.ecc * pt.sin(E0)
 
-- 
2.43.0

