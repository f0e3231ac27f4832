From 292352c67ae4e979842980cee2830e5e6950dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 01/19] fix: advance depth and stress below layers that equal
 the last layer

Profile.update_layers compared layers by value, so an interior layer with the
same properties as the last one did not advance the depth and vertical stress.
---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d286f2..2a765a6 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2135,7 +2135,7 @@ class Profile(collections.abc.Container):
             layer._profile = self
             layer._depth = depth
             layer._stress_vert = stress_vert
-            if layer != self[-1]:
+            if layer is not self[-1]:
                 # Use the layer to compute the values at the base of the
                 # layer, and apply them at the top of the next layer
                 depth = layer.depth_base
-- 
2.43.0


From 183809b086f5d2e8cef3de0128bb43a5bbeac66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 02/19] fix: look up the index of a layer by identity

Profile.index compared by value and returned the first layer with equal
properties, so that locations and thickness edits referred to another layer.
---
 src/pystrata/site.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 2a765a6..5a9bc4f 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2106,7 +2106,11 @@ class Profile(collections.abc.Container):
         return Profile([layer.copy() for layer in self], self.wt_depth)
 
     def index(self, layer):
-        return self.layers.index(layer)
+        # Compare by identity as different layers may have equal properties
+        for i, this in enumerate(self.layers):
+            if this is layer:
+                return i
+        raise ValueError("Layer is not in profile")
 
     def append(self, layer):
         last = len(self.layers)
-- 
2.43.0


From 9488844017f967656edf2539f7341b17e474a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 03/19] fix: use magnitude of the change in the relative error

A property that increased had a negative error and was taken as converged.
---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5a9bc4f..2b536db 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1702,7 +1702,7 @@ class IterativeValue:
     def relative_error(self) -> float:
         """The relative error, in percent, between the two iterations."""
         if np.all(self.value > 0):
-            err = 100.0 * np.max((self.previous - self.value) / self.value)
+            err = 100.0 * np.max(np.abs(self.previous - self.value) / self.value)
         elif np.isclose(self.value, self.previous).all():
             # When value is zero and close to previous
             err = 0
-- 
2.43.0


From a7a0f6409eb15721d17939214f1b3711dc8f9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 04/19] fix: copy the initial shear-wave velocity of a layer

Layer.copy used the strain-compatible velocity as initial velocity, so copying a
profile after a nonlinear calculation changed the initial velocities.
---
 src/pystrata/site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 2b536db..5922b97 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1772,7 +1772,9 @@ class Layer:
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-        return Layer(self.soil_type, self.thickness, self.shear_vel, self.damping_min)
+        return Layer(
+            self.soil_type, self.thickness, self.initial_shear_vel, self.damping_min
+        )
 
     @property
     def depth(self) -> float:
-- 
2.43.0


From 223e1d97a9f3e6468fa9402d9e93c27d0911a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 05/19] fix: do not share layers or strain-compatible velocity
 in auto_discretize

The discretized profile took over the Layer objects of the half-space and of the
linear layers (changing their profile, depth and stress in the original), and
used the strain-compatible velocity as initial velocity.
---
 src/pystrata/site.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5922b97..d57abdb 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2183,7 +2183,7 @@ class Profile(collections.abc.Container):
         layers = []
         for layer in self[:-1]:
             if not nonlinear_only or layer.soil_type.is_nonlinear:
-                opt_thickness = layer.shear_vel / max_freq * wave_frac
+                opt_thickness = layer.initial_shear_vel / max_freq * wave_frac
                 count = max(np.ceil(layer.thickness / opt_thickness).astype(int), 1)
                 thickness = layer.thickness / count
                 for _ in range(count):
@@ -2191,14 +2191,14 @@ class Profile(collections.abc.Container):
                         Layer(
                             layer.soil_type,
                             thickness,
-                            layer.shear_vel,
+                            layer.initial_shear_vel,
                             layer.damping_min,
                         )
                     )
             else:
-                layers.append(layer)
+                layers.append(layer.copy())
         # Add the halfspace
-        layers.append(self[-1])
+        layers.append(self[-1].copy())
 
         return Profile(layers, wt_depth=self.wt_depth)
 
-- 
2.43.0


From 22807a86ebe7dc9b5f6826c16fbd588e0ed4beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 06/19] fix: include the half-space in Vs30 of profiles
 shallower than 30 m

np.interp holds the last travel time, so the travel time through the half-space
was missing and Vs30 was too large.
---
 src/pystrata/site.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index d57abdb..2955bc6 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2314,8 +2314,13 @@ class Profile(collections.abc.Container):
 
     def vs30(self):
         """Compute the Vs30 of the profile."""
+        depths = self.depth
         tot_time = np.r_[0, np.cumsum(self.thickness / self.initial_shear_vel)[:-1]]
-        time = np.interp(30, self.depth, tot_time)
+        if depths[-1] < 30:
+            # Extend the half-space to 30 m
+            time = tot_time[-1] + (30 - depths[-1]) / self.initial_shear_vel[-1]
+        else:
+            time = np.interp(30, depths, tot_time)
         return 30 / time
 
     def simplified_rayliegh_vel(self):
-- 
2.43.0


From e0920188ff6cce91b86828c8f58f831f431b6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 07/19] fix: copy the half-space in HalfSpaceDepthVariation

The varied profile took over the half-space Layer of the original, changing its
profile, depth and stress.
---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4dca245..b6624a8 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -315,7 +315,7 @@ class HalfSpaceDepthVariation:
             for _ in range(count - 1):
                 layers.append(parent.copy())
 
-        layers.append(half_space)
+        layers.append(half_space.copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From 77513c6c8ff1b7bb9ca18f603335be60d9b0cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 08/19] fix: copy the half-space in
 SoilTypeVariation.vary_profile

The varied profile took over the half-space Layer of the original.
---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index b6624a8..f3970b2 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -928,7 +928,7 @@ class SoilTypeVariation:
 
         # Add the unrandomized bedrock
         if not self.vary_bedrock:
-            layers.append(profile[-1])
+            layers.append(profile[-1].copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From 04dbb467f3fcc2f02cef89fbac496da9979147c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 09/19] fix: keep minimum damping of the half-space in
 ToroThicknessVariation

---
 src/pystrata/variation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index f3970b2..0a6c0d3 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -276,7 +276,9 @@ class ToroThicknessVariation:
 
         # Add the half-space
         hsl = profile[-1]
-        layers.append(site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel))
+        layers.append(
+            site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel, hsl.damping_min)
+        )
 
         varied = site.Profile(layers, profile.wt_depth)
         return varied
-- 
2.43.0


From 9730919f72b55471094009ebb463a0fc550012bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 10/19] fix: use layer thicknesses in adjust_damping_values

Differences between the depths of the selected layers include excluded layers in
between and miss the last selected one, so the target was not achieved.
---
 src/pystrata/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index a7bb6c2..d5bfc12 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -451,8 +451,7 @@ def adjust_damping_values(
 
     # Collect the properties
     vel_shear = np.array([layer.initial_shear_vel for layer in layers])
-    depth = np.array([layer.depth for layer in layers])
-    thick = np.r_[np.diff(depth), 0]
+    thick = np.array([layer.thickness for layer in layers])
 
     gamma = np.sum(thick / vel_shear**2) / remainder
     damping = 1 / (2 * gamma * vel_shear)
-- 
2.43.0


From 8e1d99386080c0ba4d452176c1aaf71f5d7ff1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 11/19] fix: support odd transform lengths in TimeSeriesMotion

An odd length (including a single sample) gave one frequency too many and a time
series that was one sample short and did not match the record.
---
 src/pystrata/motion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index b286dac..4ff4e5d 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -162,9 +162,11 @@ class TimeSeriesMotion(Motion):
 
     def calc_time_series(self, tf=None):
         if tf is None:
-            ts = np.fft.irfft(self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(self.fourier_amps / self.time_step, self._fa_length)
         else:
-            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(
+                tf * self.fourier_amps / self.time_step, self._fa_length
+            )
         return ts
 
     def calc_pgv(self, tf=None):
@@ -237,10 +239,11 @@ class TimeSeriesMotion(Motion):
         else:
             n = fa_length
 
+        self._fa_length = n
         self._fourier_amps = np.fft.rfft(self._accels, n)
 
         freq_step = 1.0 / (2 * self._time_step * (n / 2))
-        self._freqs = freq_step * np.arange(1 + n / 2)
+        self._freqs = freq_step * np.arange(1 + n // 2)
 
     def _calc_sdof_tf(self, osc_freq, damping=0.05):
         """Compute the transfer function for a single-degree-of-freedom oscillator.
-- 
2.43.0


From 59cb65a1691bc7f73dca83dd16e98e6bac1638ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 12/19] fix: accept documented capitalization of regions in
 kea16_profile

---
 src/pystrata/generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index b5be4be..0870284 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -52,6 +52,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
     database." Bulletin of the Seismological Society of America, 106(4),
     1710-1723.
     """
+    region = region.lower()
     # Coefficients from Table 2 [cite: 184, 185]
     if region == "california":
         b1 = 0.25
-- 
2.43.0


From 2c4abb87b575c55b5204a2135a5f201dafb65f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 13/19] fix: provide peak ground acceleration and velocity of
 RVT motions

calc_pga and calc_pgv were only defined for TimeSeriesMotion, so pga and pgv (and
with it equivalent-linear calculations) raised AttributeError for RVT motions.
---
 src/pystrata/motion.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index 4ff4e5d..33c715e 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -85,6 +85,18 @@ class Motion:
             self._cav = self.calc_cav()
         return self._cav
 
+    def calc_pgv(self, tf=None):
+        tf = 1 if tf is None else np.asarray(tf)
+        # Compute transfer function from acceleration to velocity
+        # only over non-zero frequencies
+        mask = ~np.isclose(self.angular_freqs, 0)
+        tf_av = np.zeros_like(mask, dtype=complex)
+        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
+        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
+
+    def calc_pga(self, tf=None):
+        return self.calc_peak(tf)
+
     def calc_peak(self, tf: np.typing.ArrayLike | None = None, **kwargs) -> float:
         raise NotImplementedError
 
@@ -169,18 +181,6 @@ class TimeSeriesMotion(Motion):
             )
         return ts
 
-    def calc_pgv(self, tf=None):
-        tf = 1 if tf is None else np.asarray(tf)
-        # Compute transfer function from acceleration to velocity
-        # only over non-zero frequencies
-        mask = ~np.isclose(self.angular_freqs, 0)
-        tf_av = np.zeros_like(mask, dtype=complex)
-        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
-        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
-
-    def calc_pga(self, tf=None):
-        return self.calc_peak(tf)
-
     def calc_peak(self, tf=None, **kwargs):
         ts = self.calc_time_series(tf)
         return np.abs(ts).max()
-- 
2.43.0


From c9e117bf54e7742514babbbfb5a604f544101483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 14/19] fix: accept a scalar depth in kea16_profile as
 documented

---
 src/pystrata/generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index 0870284..f3bbdb1 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -53,6 +53,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
     1710-1723.
     """
     region = region.lower()
+    depth = np.atleast_1d(depth)
     # Coefficients from Table 2 [cite: 184, 185]
     if region == "california":
         b1 = 0.25
-- 
2.43.0


From 2975e16ea6e3bada5e5667ab26d61838615a549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 15/19] fix: WangSoilType.calc_damping converted the index
 properties to decimal twice for its own minimum damping

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 2955bc6..a19a963 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1294,7 +1294,8 @@ class WangSoilType(SoilType):
             raise ValueError("Invalid soil group")
 
         if damping_min is None:
-            damping_min = cls.calc_damping_min(soil_group, **kwds)
+            # The keywords have already been converted to decimal
+            damping_min = cls.calc_damping_min.__wrapped__(cls, soil_group, **kwds)
 
         gamma_ratio = (100 * strains / gamma_d) ** c
         # Convert damping_min to percent, and then convert the entire form to decimal
-- 
2.43.0


From 56d739bd5f98688c6f07c3e0c80cd75cc127774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 16/19] fix: align the Arias intensity time series with its
 times

---
 src/pystrata/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c3e0dbb..ef98bb0 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -405,7 +405,9 @@ class AriasIntensityTSOutput(AccelerationTSOutput):
 
     def _modify_values(self, calc, location, values):
         time_step = calc.motion.time_step
-        values = scipy.integrate.cumulative_trapezoid(values**2, dx=time_step)
+        values = scipy.integrate.cumulative_trapezoid(
+            values**2, dx=time_step, initial=0
+        )
         values *= GRAVITY * np.pi / 2
         return values
 
-- 
2.43.0


From 2b80f72c26b255729772bcf3011a1e242583ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 17/19] fix: varied thicknesses end at the total depth without
 a sliver layer

Rounding of depth_prev + (depth_total - depth_prev) left the last depth just
above depth_total, so that a further layer about 1e-15 m thick was generated.
---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 0a6c0d3..28411c0 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -237,7 +237,7 @@ class ToroThicknessVariation:
 
             if depth > depth_total:
                 thickness = depth_total - depth_prev
-                depth = depth_prev + thickness
+                depth = depth_total
 
             depth_mid = (depth_prev + depth) / 2
             yield thickness, depth_mid
-- 
2.43.0


From 6cc325845044cbe843c722316bad03d22044560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 18/19] fix: depths after inserting a layer at a negative or
 too large index

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index a19a963..1d1a097 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2122,7 +2122,8 @@ class Profile(collections.abc.Container):
 
     def insert(self, index, layer):
         self.layers.insert(index, layer)
-        self.update_layers(index)
+        # The index may be negative or beyond the last layer
+        self.update_layers()
 
     def reset_layers(self):
         """Set initial properties from the soil types."""
-- 
2.43.0


From ca1a5ed29408a8ab8469163482ba2390ae29447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 19/19] fix: take the scattering attenuation of the initial
 properties when adjusting damping in place after a run

---
 src/pystrata/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index d5bfc12..41fab70 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -418,7 +418,8 @@ def adjust_damping_values(
         profile = profile.copy()
 
     # Site attenuation considering the site propagation and scattering
-    site_atten_scatter = calc_atten_scatter(profile)
+    # of the initial properties, which the adjusted profile is reset to
+    site_atten_scatter = calc_atten_scatter(profile.copy())
 
     # Exclude the half-space and the excluded soilayer types
     layers = []
-- 
2.43.0

