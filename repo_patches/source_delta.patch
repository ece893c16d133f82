From d2510f0cf6ea0caa00dae965d2d3b133c185de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 01/21] fix: update every layer of a profile when an inner
 layer equals the half-space

---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d286f2..2a765a6 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2135,7 +2135,7 @@ class Profile(collections.abc.Container):
             layer._profile = self
             layer._depth = depth
             layer._stress_vert = stress_vert
-            if layer != self[-1]:
+            if layer is not self[-1]:
                 # Use the layer to compute the values at the base of the
                 # layer, and apply them at the top of the next layer
                 depth = layer.depth_base
-- 
2.43.0


From c5215fbcd2439c0c7466ae5e4559e23bffe21241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 02/21] fix: keep the requested index in Profile.location when
 layers are equal

---
 src/pystrata/site.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 2a765a6..82b7a4b 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2270,8 +2270,9 @@ class Profile(collections.abc.Container):
             i, depth_within = self.lookup_depth(depth)
             layer = self[i]
         elif index is not None and depth is None:
-            layer = self[index]
-            i = self.index(layer)
+            # Convert a negative index to the position from the surface
+            i = range(len(self))[index]
+            layer = self[i]
             depth_within = 0
         else:
             raise NotImplementedError
-- 
2.43.0


From 84d1e8faefe97d1deba49b456ef3e63376a6eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 03/21] fix: include the half-space in the Vs30 of profiles
 shallower than 30 m

---
 src/pystrata/site.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 82b7a4b..b274ab9 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2309,8 +2309,13 @@ class Profile(collections.abc.Container):
 
     def vs30(self):
         """Compute the Vs30 of the profile."""
+        depth = self.depth
         tot_time = np.r_[0, np.cumsum(self.thickness / self.initial_shear_vel)[:-1]]
-        time = np.interp(30, self.depth, tot_time)
+        # If needed, extend the half-space to 30 m
+        if depth[-1] < 30:
+            time = tot_time[-1] + (30 - depth[-1]) / self[-1].initial_shear_vel
+        else:
+            time = np.interp(30, depth, tot_time)
         return 30 / time
 
     def simplified_rayliegh_vel(self):
-- 
2.43.0


From 89b145c1fd0a2b474060c73ce53e917071b210e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 04/21] fix: copy the initial instead of the strain-compatible
 velocity of a layer

---
 src/pystrata/site.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index b274ab9..0a9aec6 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1772,7 +1772,12 @@ class Layer:
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-        return Layer(self.soil_type, self.thickness, self.shear_vel, self.damping_min)
+        return Layer(
+            self.soil_type,
+            self.thickness,
+            self.initial_shear_vel,
+            self.damping_min,
+        )
 
     @property
     def depth(self) -> float:
-- 
2.43.0


From a07979dd151f931e33e95ff8ad693536fc09ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 05/21] fix: discretize a profile from its initial velocities
 and without sharing layers

---
 src/pystrata/site.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 0a9aec6..cf68103 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2182,7 +2182,7 @@ class Profile(collections.abc.Container):
         layers = []
         for layer in self[:-1]:
             if not nonlinear_only or layer.soil_type.is_nonlinear:
-                opt_thickness = layer.shear_vel / max_freq * wave_frac
+                opt_thickness = layer.initial_shear_vel / max_freq * wave_frac
                 count = max(np.ceil(layer.thickness / opt_thickness).astype(int), 1)
                 thickness = layer.thickness / count
                 for _ in range(count):
@@ -2190,14 +2190,14 @@ class Profile(collections.abc.Container):
                         Layer(
                             layer.soil_type,
                             thickness,
-                            layer.shear_vel,
+                            layer.initial_shear_vel,
                             layer.damping_min,
                         )
                     )
             else:
-                layers.append(layer)
+                layers.append(layer.copy())
         # Add the halfspace
-        layers.append(self[-1])
+        layers.append(self[-1].copy())
 
         return Profile(layers, wt_depth=self.wt_depth)
 
-- 
2.43.0


From 719bbf8c75ff24c26946cb034f8e14067cb14b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 06/21] fix: use layer thicknesses when adjusting damping with
 excluded layers

---
 src/pystrata/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index a7bb6c2..d5bfc12 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -451,8 +451,7 @@ def adjust_damping_values(
 
     # Collect the properties
     vel_shear = np.array([layer.initial_shear_vel for layer in layers])
-    depth = np.array([layer.depth for layer in layers])
-    thick = np.r_[np.diff(depth), 0]
+    thick = np.array([layer.thickness for layer in layers])
 
     gamma = np.sum(thick / vel_shear**2) / remainder
     damping = 1 / (2 * gamma * vel_shear)
-- 
2.43.0


From eaf97e3f2236f5abcd36c140d897677d32426599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 07/21] fix: import the propagation module without numba

---
 src/pystrata/propagation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 33f2e0a..7b9c1ae 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -73,7 +73,6 @@ class AbstractCalculator:
         return self._loc_input
 
 
-@numba.jit(nopython=True)
 def _my_trapz_impl(thickness, prop, depth_max):
     total = 0
     depth = 0
@@ -110,7 +109,7 @@ def _my_trapz_python(thickness, prop, depth_max):
     return total / depth_max
 
 
-my_trapz = _my_trapz_impl if HAS_NUMBA else _my_trapz_python
+my_trapz = numba.jit(nopython=True)(_my_trapz_impl) if HAS_NUMBA else _my_trapz_python
 
 
 def _calc_waves_python(angular_freqs, comp_shear_vels, comp_shear_mods, thicknesses):
-- 
2.43.0


From e90405eca6109cb98d4dc491a42871f9f10efb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 08/21] fix: use the absolute change of properties in the
 convergence check

---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index cf68103..d8ab4fd 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1702,7 +1702,7 @@ class IterativeValue:
     def relative_error(self) -> float:
         """The relative error, in percent, between the two iterations."""
         if np.all(self.value > 0):
-            err = 100.0 * np.max((self.previous - self.value) / self.value)
+            err = 100.0 * np.max(np.abs((self.previous - self.value) / self.value))
         elif np.isclose(self.value, self.previous).all():
             # When value is zero and close to previous
             err = 0
-- 
2.43.0


From 5a6c5c56e3b0e97faa72afeeaaf3b4606b8af49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 09/21] fix: convert index properties of the Wang model only
 once

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index d8ab4fd..9111e90 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1294,7 +1294,8 @@ class WangSoilType(SoilType):
             raise ValueError("Invalid soil group")
 
         if damping_min is None:
-            damping_min = cls.calc_damping_min(soil_group, **kwds)
+            # The index properties are already decimal
+            damping_min = cls.calc_damping_min.__wrapped__(cls, soil_group, **kwds)
 
         gamma_ratio = (100 * strains / gamma_d) ** c
         # Convert damping_min to percent, and then convert the entire form to decimal
-- 
2.43.0


From 113a1b00712cec840996d2c6841edee1206fbb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 10/21] fix: support Fourier spectra of odd length

---
 src/pystrata/motion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index b286dac..d260429 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -162,9 +162,9 @@ class TimeSeriesMotion(Motion):
 
     def calc_time_series(self, tf=None):
         if tf is None:
-            ts = np.fft.irfft(self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(self.fourier_amps / self.time_step, self._fa_length)
         else:
-            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step, self._fa_length)
         return ts
 
     def calc_pgv(self, tf=None):
@@ -237,10 +237,11 @@ class TimeSeriesMotion(Motion):
         else:
             n = fa_length
 
+        self._fa_length = n
         self._fourier_amps = np.fft.rfft(self._accels, n)
 
         freq_step = 1.0 / (2 * self._time_step * (n / 2))
-        self._freqs = freq_step * np.arange(1 + n / 2)
+        self._freqs = freq_step * np.arange(1 + n // 2)
 
     def _calc_sdof_tf(self, osc_freq, damping=0.05):
         """Compute the transfer function for a single-degree-of-freedom oscillator.
-- 
2.43.0


From 17b41824462aa753aaa8e64072a5764209b70c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 11/21] fix: keep the half-space damping when varying
 thicknesses

---
 src/pystrata/variation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4dca245..611ac0c 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -276,7 +276,9 @@ class ToroThicknessVariation:
 
         # Add the half-space
         hsl = profile[-1]
-        layers.append(site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel))
+        layers.append(
+            site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel, hsl.damping_min)
+        )
 
         varied = site.Profile(layers, profile.wt_depth)
         return varied
-- 
2.43.0


From aad680381e9f2a634eaf19fbd37990b6837bffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 12/21] fix: copy the half-space of varied profiles

---
 src/pystrata/variation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 611ac0c..9a31176 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -294,7 +294,7 @@ class HalfSpaceDepthVariation:
 
         # Find the layer
         index, depth_within = profile.lookup_depth(varied_depth)
-        half_space = profile[-1]
+        half_space = profile[-1].copy()
 
         if index < (len(profile) - 1):
             # Variation is within the layers
@@ -930,7 +930,7 @@ class SoilTypeVariation:
 
         # Add the unrandomized bedrock
         if not self.vary_bedrock:
-            layers.append(profile[-1])
+            layers.append(profile[-1].copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From 4d924c7c726571f254f45588ef29a113825e6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 13/21] fix: list each soil type of a profile only once

---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 9111e90..6bba5ea 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2150,10 +2150,10 @@ class Profile(collections.abc.Container):
     def iter_soil_types(self):
         yielded = set()
         for layer in self:
-            if layer.soil_type in yielded:
+            if id(layer.soil_type) in yielded:
                 continue
             else:
-                yielded.add(layer)
+                yielded.add(id(layer.soil_type))
                 yield layer.soil_type
 
     def auto_discretize(
-- 
2.43.0


From 2ce944f27aab4af6cd9d99ef8d50ea202f0c22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 14/21] fix: compute stresses within the half-space

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 6bba5ea..36e02f5 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1989,7 +1989,8 @@ class Layer:
 
     def stress_vert(self, depth_within=0, effective=False):
         """Vertical stress from the top of the layer [kN//m²]."""
-        assert depth_within <= self.thickness
+        # The half-space extends beyond its nominal thickness
+        assert depth_within <= self.thickness or self is self._profile[-1]
         stress_vert = self._stress_vert + depth_within * self.unit_wt
         if effective:
             pore_pressure = self._profile.pore_pressure(self.depth + depth_within)
-- 
2.43.0


From 9141c7fa4068db40d058dec8730f36cf748afdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 15/21] fix: start Arias intensity time series at zero

---
 src/pystrata/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c3e0dbb..ef98bb0 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -405,7 +405,9 @@ class AriasIntensityTSOutput(AccelerationTSOutput):
 
     def _modify_values(self, calc, location, values):
         time_step = calc.motion.time_step
-        values = scipy.integrate.cumulative_trapezoid(values**2, dx=time_step)
+        values = scipy.integrate.cumulative_trapezoid(
+            values**2, dx=time_step, initial=0
+        )
         values *= GRAVITY * np.pi / 2
         return values
 
-- 
2.43.0


From 1d9c4e75f4ca596b5e52df4b8e3159a072338dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 16/21] fix: keep damping and attenuation of fitted
 quarter-wavelength profiles

---
 src/pystrata/propagation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 7b9c1ae..28fcbf0 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -529,7 +529,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
             # Prefer the original values so add the difference to the error
             err += calc_rmse(slowness, _slowness)
             if adjust_thickness:
-                err += calc_rmse(thickness, _thickness)
+                # The half-space has no thickness
+                err += calc_rmse(thickness[:-1], _thickness[:-1])
             if adjust_site_atten:
                 err += calc_rmse(self._site_atten, site_atten)
             return err
@@ -539,10 +540,12 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         slowness = res.x[0:nl]
         if adjust_thickness:
             thickness = res.x[nl : (2 * nl)]
+        if adjust_site_atten:
+            self._site_atten = res.x[-1]
 
         profile = Profile(
             [
-                Layer(layer.soil_type, thick, 1 / slow)
+                Layer(layer.soil_type, thick, 1 / slow, layer.damping_min)
                 for layer, thick, slow in zip(self.profile, thickness, slowness)
             ],
             self.profile.wt_depth,
-- 
2.43.0


From 0cd853a57adb7b9a35d310b9abf0ffcd4ffcb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 17/21] fix: kea16_profile accepts the documented region names

---
 src/pystrata/generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index b5be4be..0870284 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -52,6 +52,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
     database." Bulletin of the Seismological Society of America, 106(4),
     1710-1723.
     """
+    region = region.lower()
     # Coefficients from Table 2 [cite: 184, 185]
     if region == "california":
         b1 = 0.25
-- 
2.43.0


From 47db485e16e2a0607de990113a04d8fe5790b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 18/21] fix: kea16_profile accepts a single depth

---
 src/pystrata/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index 0870284..f4da352 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -98,7 +98,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
 
     df = pd.DataFrame(
         {"vs_median": vs_median, "std_vs_ln_units": std_vs_ln_units},
-        index=pd.Index(depth, name="depth"),
+        index=pd.Index(np.atleast_1d(depth), name="depth"),
     )
 
     return df
-- 
2.43.0


From e9118b67b5e0ce312bcff5cd411e60545153e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 19/21] fix: peak velocity and acceleration of RVT motions

Motion.pgv and Motion.pga need calc_pgv and calc_pga, which only time
series had, so the equivalent-linear calculators failed with an
AttributeError for every RVT motion.
---
 src/pystrata/motion.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index d260429..d744ca9 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -85,6 +85,18 @@ class Motion:
             self._cav = self.calc_cav()
         return self._cav
 
+    def calc_pgv(self, tf=None):
+        tf = 1 if tf is None else np.asarray(tf)
+        # Compute transfer function from acceleration to velocity
+        # only over non-zero frequencies
+        mask = ~np.isclose(self.angular_freqs, 0)
+        tf_av = np.zeros_like(mask, dtype=complex)
+        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
+        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
+
+    def calc_pga(self, tf=None):
+        return self.calc_peak(tf)
+
     def calc_peak(self, tf: np.typing.ArrayLike | None = None, **kwargs) -> float:
         raise NotImplementedError
 
@@ -167,18 +179,6 @@ class TimeSeriesMotion(Motion):
             ts = np.fft.irfft(tf * self.fourier_amps / self.time_step, self._fa_length)
         return ts
 
-    def calc_pgv(self, tf=None):
-        tf = 1 if tf is None else np.asarray(tf)
-        # Compute transfer function from acceleration to velocity
-        # only over non-zero frequencies
-        mask = ~np.isclose(self.angular_freqs, 0)
-        tf_av = np.zeros_like(mask, dtype=complex)
-        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
-        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
-
-    def calc_pga(self, tf=None):
-        return self.calc_peak(tf)
-
     def calc_peak(self, tf=None, **kwargs):
         ts = self.calc_time_series(tf)
         return np.abs(ts).max()
-- 
2.43.0


From 2f86db2a96454fd99d241c4b2f0024cc453ecd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:07 +0000
Subject: [PATCH 20/21] fix: statistics and tables of outputs holding a single
 realisation

---
 src/pystrata/output.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index ef98bb0..216f604 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -235,7 +235,8 @@ class Output:
             self._values = append_arrays(self._values, values)
 
     def calc_stats(self, as_dataframe=False):
-        ln_values = np.log(self.values)
+        # A single realisation is stored without a second dimension
+        ln_values = np.log(self.values.reshape(len(self.values), -1))
         median = np.exp(np.nanmean(ln_values, axis=1))
         ln_std = np.nanstd(ln_values, axis=1)
 
@@ -654,7 +655,7 @@ class ProfileBasedOutput(Output):
         if ref is None:
             ref = np.linspace(0, np.nanmax(self.refs) * 1.05, num=512)
 
-        n = self.values.shape[1]
+        n = len(self.names)
         with np.errstate(divide="ignore", invalid="ignore"):
             # Ignore zeros in the data
             ln_values = np.array([self._ln_interp(i, ref) for i in range(n)]).T
@@ -680,11 +681,12 @@ class ProfileBasedOutput(Output):
     def _ln_interp(self, i, ref):
         """Interpolate the values in log-y space."""
 
-        _ref = self.refs[:, i]
+        # A single realisation is stored without a second dimension
+        _ref = self.refs.reshape(len(self.refs), -1)[:, i]
         # Only select points with valid entries
         mask = np.isfinite(_ref)
         _ref = _ref[mask]
-        _ln_values = np.log(self.values[mask, i])
+        _ln_values = np.log(self.values.reshape(len(self.values), -1)[mask, i])
 
         if np.any(mask):
             f = interp1d(
@@ -715,7 +717,7 @@ class ProfileBasedOutput(Output):
             columns = self.names
 
         # Ignore zeros in the data
-        n = self.values.shape[1]
+        n = len(self.names)
         values = np.exp(np.array([self._ln_interp(i, ref) for i in range(n)])).T
 
         df = pd.DataFrame(values, index=ref, columns=columns)
-- 
2.43.0


From f99dd16820e08e6b09d9a7e0a9db2120218d0b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 21/21] fix: Profile.insert updates the layers for any index

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 36e02f5..12256ce 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2122,7 +2122,8 @@ class Profile(collections.abc.Container):
 
     def insert(self, index, layer):
         self.layers.insert(index, layer)
-        self.update_layers(index)
+        # The index may be negative, or greater than the number of layers
+        self.update_layers()
 
     def reset_layers(self):
         """Set initial properties from the soil types."""
-- 
2.43.0

