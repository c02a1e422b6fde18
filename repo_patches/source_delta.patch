From 54956748c19ff745d20d53942164640add46354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 01/44] fix: raise AttributeError for unknown Scenario
 attributes

---
 src/pygmm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..37c45c1 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,7 +126,10 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
-        return self.data[item]
+        try:
+            return self.__dict__["data"][item]
+        except KeyError:
+            raise AttributeError(item) from None
 
     def __repr__(self):
         """Representation."""
-- 
2.43.0


From 922b99bdc07c6a210bbde750a3f65e48cb677bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 02/44] fix: allow the repr of a Scenario without mag or
 dist_jb

---
 src/pygmm/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 37c45c1..a155428 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -133,7 +133,9 @@ class Scenario(collections.UserDict):
 
     def __repr__(self):
         """Representation."""
-        return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(**self.data)
+        return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(
+            mag=self.get("mag"), dist_jb=self.get("dist_jb")
+        )
 
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
-- 
2.43.0


From cfd5c776f2bcb512772888d21d4473e0975e03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 03/44] fix: report the limit in the numeric parameter warnings

---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index a155428..abc6ba2 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -462,14 +462,14 @@ class NumericParameter(Parameter):
             if self.min is not None and value < self.min:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is less than the recommended limit ({self.min}).",
+                    f"is less than the recommended limit ({self.min}).",
                     UserWarning,
                     stacklevel=2,
                 )
             elif self.max is not None and self.max < value:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is greater than the recommended limit ({self.max}).",
+                    f"is greater than the recommended limit ({self.max}).",
                     UserWarning,
                     stacklevel=2,
                 )
-- 
2.43.0


From 6240c59b671a220cdad61030be748c897a98f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 04/44] fix: use the China anelastic attenuation in CB14

---
 src/pygmm/campbell_bozorgnia_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..8caf34b 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -188,7 +188,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         # Anaelastic attenuation term
         if s.region in ["japan", "italy"]:
             dc_20 = c.dc_20jp
-        elif s.region == ["china"]:
+        elif s.region == "china":
             dc_20 = c.dc_20ch
         else:
             dc_20 = c.dc_20ca
-- 
2.43.0


From c1a71d5a9c13d97731e322bf8e17c9ef093f8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 05/44] fix: store the estimated CB14 inputs in the scenario
 data

---
 src/pygmm/campbell_bozorgnia_2014.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 8caf34b..a1a29bf 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -77,21 +77,21 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
                     mech,
                 )
         if s.depth_2_5 is None:
-            s.depth_2_5 = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
+            s["depth_2_5"] = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
 
         if s.depth_tor is None:
-            s.depth_tor = CY14.calc_depth_tor(s.mag, s.mechanism)
+            s["depth_tor"] = CY14.calc_depth_tor(s.mag, s.mechanism)
 
         if s.width is None:
-            s.width = CampbellBozorgnia2014.calc_width(
+            s["width"] = CampbellBozorgnia2014.calc_width(
                 s.mag, s.dip, s.depth_tor, s.depth_bot
             )
 
         if s.depth_bor is None:
-            s.depth_bor = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
+            s["depth_bor"] = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
 
         if s.depth_hyp is None:
-            s.depth_hyp = CampbellBozorgnia2014.calc_depth_hyp(
+            s["depth_hyp"] = CampbellBozorgnia2014.calc_depth_hyp(
                 s.mag, s.dip, s.depth_tor, s.depth_bor
             )
 
-- 
2.43.0


From 48b277f3afb48af8d4b375b4a7ceae5e4282d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 06/44] fix: pass the region to the BSSA14 basin term

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..e9a0f04 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -205,7 +205,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         else:
             # Compute the site term
             site = self.calc_site_term(
-                pga_ref, s.v_s30, s.depth_1_0, s.get("depth_1_0", None)
+                pga_ref, s.v_s30, s.depth_1_0, s.region
             )
 
         ln_resp = event + path + site
-- 
2.43.0


From e399ad392458f592c151fb331007529329746627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 07/44] fix: add the missing b_2 in the AB06 nonlinear site
 term

---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index d17e5ee..79cfe5d 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -153,7 +153,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         if s.v_s30 <= VS_1:
             b_nl = c.b_1
         elif VS_1 < s.v_s30 <= VS_2:
-            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
+            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
+                VS_1 / VS_2
+            ) + c.b_2
         elif VS_2 < s.v_s30 <= VS_REF:
             b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
         else:
-- 
2.43.0


From ca89dc758526dc28d52ced670548f76375385bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 08/44] fix: report AB06 PGV in cm/s and PGD in cm

---
 src/pygmm/atkinson_boore_2006.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 79cfe5d..a93cf38 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -39,6 +39,11 @@ class AtkinsonBoore2006(model.GroundMotionModel):
     INDEX_PGA = 2
     INDICES_PSA = np.arange(3, 27)
 
+    # The response is converted from cm/s/s to g. PGV and PGD need to be scaled
+    # back to cm/s and cm.
+    PGV_SCALE = 980.665
+    PGD_SCALE = 980.665
+
     PARAMS = [
         model.NumericParameter("mag", True),
         model.NumericParameter("dist_rup", True),
-- 
2.43.0


From 4fb796b9d328c42c3be18872e34ffa3e92966d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 09/44] fix: convert the AB06 standard deviation from log10 to
 natural log

---
 src/pygmm/atkinson_boore_2006.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index a93cf38..4a01621 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -113,7 +113,7 @@ class AtkinsonBoore2006(model.GroundMotionModel):
             natural log standard deviation
 
         """
-        ln_std = np.ones_like(self.PERIODS) * 0.30
+        ln_std = np.ones_like(self.PERIODS) * 0.30 * np.log(10)
         return ln_std
 
     def _calc_stress_factor(self) -> float:
-- 
2.43.0


From 1d8e7a14302dc3f23bfe21411299c74c7776d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 10/44] fix: convert the Pea11 standard deviation from log10 to
 natural log

---
 src/pygmm/pezeshk_zandieh_tavakoli_2011.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
index cd0be56..38f2c29 100644
--- a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
+++ b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
@@ -85,10 +85,10 @@ class PezeshkZandiehTavakoli2011(model.GroundMotionModel):
         c = self.COEFF
 
         if s.mag <= 7.0:
-            ln_std_mean = c.c_12 * s.mag + c.c_13
+            log10_std_mean = c.c_12 * s.mag + c.c_13
         else:
-            ln_std_mean = -6.95e-3 * s.mag + c.c_14
+            log10_std_mean = -6.95e-3 * s.mag + c.c_14
 
-        ln_std = np.sqrt(ln_std_mean**2 + c["sigma_reg"] ** 2)
+        ln_std = np.log(10) * np.sqrt(log10_std_mean**2 + c["sigma_reg"] ** 2)
 
         return ln_std
-- 
2.43.0


From 5bdf4662230eb495c0245170f64ab1b3bc99de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 11/44] fix: do not exponentiate the interpolated GA11 standard
 deviation

---
 src/pygmm/gulerce_abrahamson_2011.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..d07eb97 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -90,9 +90,9 @@ class GulerceAbrahamson2011(model.Model):
         )
 
     def interp_ln_std(self, periods: ArrayLike) -> np.ndarray:
-        """Interpolate the spectral ratio.
+        """Interpolate the logarithmic standard deviation.
 
-        Interpolation of the spectral ratio done in log-period space.
+        Interpolation of the standard deviation done in log-period space.
 
         Parameters
         ----------
@@ -101,17 +101,15 @@ class GulerceAbrahamson2011(model.Model):
 
         Returns
         -------
-        ratio : np.ndarray
-            interpolated ratio
+        ln_std : np.ndarray
+            interpolated logarithmic standard deviation
 
         """
 
-        return np.exp(
-            np.interp(
-                np.log(periods),
-                np.log(self.PERIODS[self.INDICES_PSA]),
-                self._ln_std[self.INDICES_PSA],
-            )
+        return np.interp(
+            np.log(periods),
+            np.log(self.PERIODS[self.INDICES_PSA]),
+            self._ln_std[self.INDICES_PSA],
         )
 
     def _calc_ln_ratio(self):
-- 
2.43.0


From 65ab61758a188edc9fd8a09d928b853256f0301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 12/44] fix: interpolate the BA19 standard deviations with
 magnitude

---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..c9bbc6d 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -171,7 +171,7 @@ class BaylessAbrahamson2019(model.Model):
         c = self.COEFF
 
         def interp(left, right):
-            return np.clip(left + (right - left) / 2 * (s.mag - 4), left, right)
+            return left + (right - left) * np.clip((s.mag - 4) / 2, 0, 1)
 
         tau = interp(c.s1, c.s2)
         phi_s2s = interp(c.s3, c.s4)
-- 
2.43.0


From cf415551ae158da9e9f971bbbd3c4248d938a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 13/44] fix: convert the AS16 basin depth residual to meters

---
 src/pygmm/afshari_stewart_2016.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 6ba6720..4592a3b 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -86,7 +86,8 @@ class AfshariStewart2016(model.Model):
         dz_1ref = 200
         # depth to bedrock duration
         if s.depth_1_0 is not None:
-            dz_1 = s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism)
+            # Convert from km to m
+            dz_1 = 1000 * (s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism))
             F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)
         else:
             F_dz1 = 0
-- 
2.43.0


From bfd34ddcaf41e894065aac636dc52356d461fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 14/44] fix: do not modify the normalized Arias intensity
 passed to AS96

---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..0d4f2a0 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -53,7 +53,7 @@ class AbrahamsonSilva1996(model.Model):
     @staticmethod
     def calc_ln_dur_incr(nias):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
@@ -66,7 +66,7 @@ class AbrahamsonSilva1996(model.Model):
 
     def interp(self, nias, stds=None):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-- 
2.43.0


From b51e253e5baa70b270892d7c67e33806dbfdb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 15/44] fix: do not double count the D5-75 increment in the
 AS96 interpolation

---
 src/pygmm/abrahamson_silva_1996.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 0d4f2a0..ed2a277 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -70,7 +70,10 @@ class AbrahamsonSilva1996(model.Model):
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-        ln_dur = self._ln_dur + self.calc_ln_dur_incr(nias)
+        # The D5-75 increment is already included in _ln_dur
+        ln_dur = (
+            self._ln_dur + self.calc_ln_dur_incr(nias) - self.calc_ln_dur_incr(0.75)
+        )
 
         if stds is not None:
             std_errs = np.interp(
-- 
2.43.0


From 8e7ad7562393c0bccd0190aa52f7499c42c2809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 16/44] fix: evaluate all elements of the PR24 duration_model
 inputs

---
 src/pygmm/pinilla_ramos_et_al_2024.py | 46 ++++++++++++++-------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 63f727b..3835198 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -788,32 +788,34 @@ def duration_model(
     """
     from .model import Scenario
 
-    # Convert inputs to arrays
-    mag_arr = np.atleast_1d(mag)
-    rrup_arr = np.atleast_1d(rrup)
-    vs30_arr = np.atleast_1d(vs30)
-
-    # Create scenario and model
-    scenario = Scenario(
-        mag=mag_arr[0],
-        dist_rup=rrup_arr[0],
-        v_s30=vs30_arr[0],
-        event_type=eq_type,
-        region=region,
+    # Convert inputs to arrays of the same shape
+    mag_arr, rrup_arr, vs30_arr = np.broadcast_arrays(
+        np.atleast_1d(mag), np.atleast_1d(rrup), np.atleast_1d(vs30)
     )
-    model_inst = PinillaRamosEtAl2024(scenario)
 
-    if np.isclose(energy, 0.75):
-        duration, plus_sigma, minus_sigma = (
-            model_inst.duration,
-            model_inst.duration_plus_sigma,
-            model_inst.duration_minus_sigma,
+    # Evaluate the model for each of the scenarios
+    results = np.empty((3,) + mag_arr.shape)
+    for idx in np.ndindex(mag_arr.shape):
+        scenario = Scenario(
+            mag=mag_arr[idx],
+            dist_rup=rrup_arr[idx],
+            v_s30=vs30_arr[idx],
+            event_type=eq_type,
+            region=region,
         )
-    else:
-        duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+        model_inst = PinillaRamosEtAl2024(scenario)
+
+        if np.isclose(energy, 0.75):
+            values = (
+                model_inst.duration,
+                model_inst.duration_plus_sigma,
+                model_inst.duration_minus_sigma,
+            )
+        else:
+            values = model_inst.duration_for_energy(energy)
+        results[(slice(None),) + idx] = values
 
-    # Return as arrays to match expected return type
-    return np.array([duration]), np.array([plus_sigma]), np.array([minus_sigma])
+    return results[0], results[1], results[2]
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 498578f4841ac1c5641148ad4cb050b5225efe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 17/44] fix: bound the Stafford (2017) between-event
 correlation

---
 src/pygmm/stafford_2017.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4768df4..4182068 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -150,18 +150,11 @@ class Stafford2017:
         f_min = np.minimum(f_i, f_j)
         f_max = np.maximum(f_i, f_j)
 
-        # Corner frequency for given magnitude
-        fc = cls.compute_corner_frequency(mag)
-
-        # Normalized frequencies
-        f_min_norm = f_min / fc
-        f_max_norm = f_max / fc
-
-        # Compute gamma_E
-        gamma_E = cls.compute_gamma_E(f_min_norm, mag)
+        # Compute gamma_E, which normalizes by the corner frequency
+        gamma_E = cls.compute_gamma_E(f_min, mag)
 
         # Apply equation 11
-        correlation = np.exp(gamma_E * f_min_norm * np.log(f_max_norm / f_min_norm))
+        correlation = np.exp(gamma_E * np.log(f_max / f_min))
 
         return correlation
 
-- 
2.43.0


From ccbfa1a590ccffe1cac2e50ec7c8d0d75cdbc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 18/44] fix: bound the Stafford (2017) within-event and
 between-site correlations

---
 src/pygmm/stafford_2017.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4182068..ac23b95 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -172,13 +172,14 @@ class Stafford2017:
         gamma_A = cls.compute_gamma_A(f_min)
 
         # Base correlation (equation 14)
-        rho_A0 = (1 - eta_A) * np.exp(gamma_A * np.log(f_max / f_min))
+        rho_A0 = (1 - eta_A) * np.exp(-gamma_A * np.log(f_max / f_min))
 
         # Full correlation including nugget effect (equation 15)
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_A = rho_A0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_A = rho_A0 * (1 - nugget) + nugget
             return rho_A
 
     @classmethod
@@ -201,7 +202,8 @@ class Stafford2017:
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_S = rho_S0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_S = rho_S0 * (1 - nugget) + nugget
             return rho_S
 
     @classmethod
-- 
2.43.0


From dae1dace4065198c59dab31a90ef44792eeb74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 19/44] fix: support a Kishida (2017) target without masked
 values

---
 src/pygmm/kishida_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/kishida_2017.py b/src/pygmm/kishida_2017.py
index 7244613..2cf4971 100644
--- a/src/pygmm/kishida_2017.py
+++ b/src/pygmm/kishida_2017.py
@@ -55,7 +55,7 @@ def calc_cond_mean_spectrum_vector(
     if not np.all(np.diff(periods) > 0):
         raise ValueError("`periods` must be increasing")
 
-    mask = ln_psas_cond.mask
+    mask = np.ma.getmaskarray(ln_psas_cond)
 
     # Group the periods into those not being conditioned upon, and those used
     # for the conditioning. See Equations (14), (15), and (16)
-- 
2.43.0


From 0a41d162743b0880d4070c0ee84d50bf7209a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 20/44] fix: accept array_like frequencies in BA18

---
 src/pygmm/bayless_abrahamson_2018.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygmm/bayless_abrahamson_2018.py b/src/pygmm/bayless_abrahamson_2018.py
index f3db13f..ac05efd 100644
--- a/src/pygmm/bayless_abrahamson_2018.py
+++ b/src/pygmm/bayless_abrahamson_2018.py
@@ -39,6 +39,7 @@ class BaylessAbrahamson2018:
             Correlation coefficient matrix
         """
 
+        freqs = np.asarray(freqs)
         # Create two matrices of frequencies
         n = freqs.shape[0]
         freqs_row = np.full((n, n), freqs)
-- 
2.43.0


From e215fed492aec51f7b835c10ac03b7b912600c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 21/44] fix: do not double the PR23 duration next to the D5-75
 threshold

---
 src/pygmm/pinilla_ramos_et_al_2023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index 2c223d6..b42ff42 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -105,7 +105,7 @@ class PinillaRamosEtAl2023(model.Model):
             0.092914,
             0.067803,
             0.034992,
-            1,
+            0,
             -0.044725,
             -0.112447,
             -0.209689,
-- 
2.43.0


From 49ffdc4af3e35736fdbd5debcbebb02564ba057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 22/44] fix: return a copy of the BA19 frequencies, which are
 shared by all instances

---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index c9bbc6d..422d98f 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -56,7 +56,7 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def freqs(self):
-        return self.FREQS
+        return self.FREQS.copy()
 
     @property
     def ln_eas(self):
-- 
2.43.0


From 8fcc9ba3d3f8eb27d7ca5798a112c24ed204dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 23/44] fix: provide the BA19 standard deviation up to 100 Hz

---
 src/pygmm/bayless_abrahamson_2019.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 422d98f..1f8afa7 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -177,7 +177,10 @@ class BaylessAbrahamson2019(model.Model):
         phi_s2s = interp(c.s3, c.s4)
         phi_ss = interp(c.s5, c.s6)
 
-        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c.c1a**2)
+        # c1a is zero at high frequencies, and not specified above 24 Hz
+        c1a = np.nan_to_num(c.c1a)
+
+        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c1a**2)
         return ln_std
 
     @staticmethod
-- 
2.43.0


From 5d196672858159a4f08c0ccd8e9a649a2f80513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 24/44] fix: keep the standard deviations provided to Stafford
 (2017)

---
 src/pygmm/stafford_2017.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index ac23b95..ec90f69 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -286,8 +286,13 @@ class Stafford2017:
             The covariance matrix for the Fourier spectral ordinates.
         """
         if sigma_E is None or sigma_S is None or sigma_A is None:
-            # Compute standard deviations if not provided
-            sigma_E, sigma_S, sigma_A = cls.compute_variances(freqs)
+            # Compute the standard deviations that are not provided
+            sigma_E, sigma_S, sigma_A = (
+                computed if provided is None else provided
+                for computed, provided in zip(
+                    cls.compute_variances(freqs), (sigma_E, sigma_S, sigma_A)
+                )
+            )
 
         # Check input dimensions
         n = len(freqs)
-- 
2.43.0


From 21610f19c16741b8212f07632fda2973a8a3f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 25/44] fix: use the minimum nonlinear BA19 response at the
 highest frequencies

---
 src/pygmm/bayless_abrahamson_2019.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 1f8afa7..1776e3d 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -154,12 +154,13 @@ class BaylessAbrahamson2019(model.Model):
         # Use the minimum value at higher frequencies as described in the text and
         # referenced to Bayless and Abrahamson (2018b)
         i = np.argmin(f_nl)
-        f_nl[(i + 1) :] = f_nl[i]
+        f_nl_min = f_nl[i]
+        f_nl[(i + 1) :] = f_nl_min
         width = 7
         kernel = np.ones(width) / width
         f_nl = np.convolve(f_nl, kernel, mode="same")
         # End needs to be forced down
-        f_nl[-width:] = f_nl[i]
+        f_nl[-width:] = f_nl_min
 
         f_s = f_sl + f_nl
 
-- 
2.43.0


From 512eeec1f23083ea331f945c97b7f775133ad0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 26/44] fix: let the CB14 Z2.5 increase with the Z1.0 it is
 estimated from

---
 src/pygmm/campbell_bozorgnia_2014.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a1a29bf..0e5702d 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -382,11 +382,11 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
             if region == "japan":
                 # From equation 6.13 on page 64
                 intercept = 0.408
-                slope = 1.745
+                slope = -1.745
             else:
                 # From equation 6.12 on page 64
                 intercept = 1.392
-                slope = 1.798
+                slope = -1.798
 
             # Global model
             # Not supported by NGA-West2 spreadsheet, and therefore removed.
-- 
2.43.0


From b6d8b39c96d8d30d4a18bb54163862ea1befae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 27/44] fix: do not empty a Scenario while it is copied

---
 src/pygmm/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index abc6ba2..3a0cd31 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -137,6 +137,14 @@ class Scenario(collections.UserDict):
             mag=self.get("mag"), dist_jb=self.get("dist_jb")
         )
 
+    def copy(self):
+        """Copy of the scenario.
+
+        In contrast to :meth:`collections.UserDict.copy`, the scenario is not
+        emptied while it is copied, so that it may be shared by threads.
+        """
+        return self.__copy__()
+
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
         other = self.copy()
-- 
2.43.0


From 9f9f32e089130765b24ddece05b19fe198d2bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 28/44] fix: limit the short-period CB14 response to no less
 than the PGA

---
 src/pygmm/campbell_bozorgnia_2014.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 0e5702d..68ab88c 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -105,6 +105,11 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         pga_ref = np.exp(self._calc_ln_resp(np.nan, self.V_REF)[self.INDEX_PGA])
         self._ln_resp = self._calc_ln_resp(pga_ref, self._scenario.v_s30)
+        # At short periods, the response is not less than the PGA
+        mask = (0 < self.PERIODS) & (self.PERIODS < 0.25)
+        self._ln_resp[mask] = np.maximum(
+            self._ln_resp[mask], self._ln_resp[self.INDEX_PGA]
+        )
         self._ln_std, self._tau, self._phi = self._calc_ln_std(pga_ref)
 
     def _calc_ln_resp(self, pga_ref: float, v_s30: float) -> np.ndarray:
-- 
2.43.0


From 2a22043781865ed6c20c99662d1271fccd94a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 29/44] fix: scale the AB06 stress factor with the logarithm of
 the stress drop

---
 src/pygmm/atkinson_boore_2006.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 4a01621..3c79e49 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -132,7 +132,11 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         v1 = c.delta + 0.05
         v2 = 0.05 + c.delta * np.maximum(s.mag - c.m_1, 0) / (c.m_h - c.m_1)
 
-        log10_stress_factor = np.minimum(2.0, stress_drop / 140.0) * np.minimum(v1, v2)
+        # The factor is for a doubling of the stress drop from 140 bar, and is
+        # limited to two doublings
+        log10_stress_factor = np.minimum(2.0, np.log2(stress_drop / 140.0)) * np.minimum(
+            v1, v2
+        )
 
         return np.interp(self.PERIODS, c.period, log10_stress_factor)
 
-- 
2.43.0


From 9f15966dda782ed91cf2c0ece3770e088d222a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 30/44] fix: report magnitude limits through the package's
 logger

The root logger's functions install a handler on it when none is configured.
---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 6 ++++--
 src/pygmm/campbell_bozorgnia_2014.py            | 4 +++-
 src/pygmm/chiou_youngs_2014.py                  | 4 +++-
 src/pygmm/hermkes_kuehn_riggelsen_2014.py       | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index e9a0f04..406cbe3 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
     """Boore, Stewart, Seyhan, and Atkinson (2014, :cite:`boore14`) model.
@@ -132,7 +134,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         if s.mechanism == "SS":
             _min, _max = 3.0, 8.5
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a strike-slip earthquake!",
                     s.mag,
@@ -142,7 +144,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         elif s.mechanism == "NS":
             _min, _max = 3.0, 7.0
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a normal-slip earthquake!",
                     s.mag,
diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 68ab88c..1de9d8d 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class CampbellBozorgnia2014(model.GroundMotionModel):
     """Campbell and Bozorgnia (2014, :cite:`campbell14`) model.
@@ -69,7 +71,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         for mech, limit in [("SS", 8.5), ("RS", 8.0), ("NS", 7.5)]:
             if mech == s.mechanism and s.mag > limit:
-                logging.warning(
+                logger.warning(
                     "Magnitude of %g is greater than the recommended limit of"
                     "%g for %s style faults",
                     s.mag,
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index 55e81ac..78355f0 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -10,6 +10,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class ChiouYoungs2014(model.GroundMotionModel):
     """Chiou and Youngs (2014, :cite:`chiou14`) model.
@@ -271,7 +273,7 @@ class ChiouYoungs2014(model.GroundMotionModel):
             _min, _max = 3.5, 8.5
 
         if not (_min <= s.mag <= _max):
-            logging.warning(
+            logger.warning(
                 "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                 " for a %s earthquake!",
                 s.mag,
diff --git a/src/pygmm/hermkes_kuehn_riggelsen_2014.py b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
index 29c6e33..b67566b 100644
--- a/src/pygmm/hermkes_kuehn_riggelsen_2014.py
+++ b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
@@ -11,6 +11,8 @@ from . import model
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 fname_data = pathlib.Path(__file__).parent.joinpath(
     "data", "hermkes_kuehn_riggelsen_2014.npz"
 )
@@ -27,7 +29,7 @@ if not fname_data.exists():
     try:
         urllib.request.urlretrieve(url, str(fname_data))
     except urllib.request.URLError:
-        logging.critical(
+        logger.critical(
             "Hermkes, Kuehn, and Riggelsen (2013) model data required, "
             "which cannot be downloaded. Download the file from %s"
             "to this location: %s",
-- 
2.43.0


From 313ade5527d91153ef65be87497ffc7f8a1f35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 31/44] fix: read the coefficient files as UTF-8 in every
 locale

---
 src/pygmm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 3a0cd31..5e8f0ca 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -547,7 +547,12 @@ def load_data_file(name, skip_header: int = 0) -> np.recarray:
     """
     fname = os.path.join(os.path.dirname(__file__), "data", name)
     return np.genfromtxt(
-        fname, skip_header=skip_header, delimiter=",", names=True, case_sensitive=True
+        fname,
+        skip_header=skip_header,
+        delimiter=",",
+        names=True,
+        case_sensitive=True,
+        encoding="utf-8-sig",
     ).view(np.recarray)
 
 
-- 
2.43.0


From 6bf4d52b2143bc0f32cca7641bec13e63e57d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 32/44] fix: raise AttributeError for missing entries of
 Coefficients

---
 src/pygmm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 5e8f0ca..c2d135e 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -566,7 +566,10 @@ class Coefficients(collections.abc.Mapping):
         return self._data[key]
 
     def __getattr__(self, key):
-        return self.__getitem__(key)
+        try:
+            return self.__dict__["_data"][key]
+        except KeyError:
+            raise AttributeError(key) from None
 
     def __len__(self):
         return len(self._data)
-- 
2.43.0


From 3ec56028a6c5914a776a5ec0abbe69f20e0175ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 33/44] fix: refuse the variability of peak motions where a
 model has none

---
 src/pygmm/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index c2d135e..2551469 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -338,7 +338,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pga(self) -> float:
         """Peak ground accelaration log-standard deviation."""
-        if self.INDEX_PGA is None:
+        if self.INDEX_PGA is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGA]
@@ -354,7 +354,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pgv(self) -> float:
         """Peak ground velocity log-standard deviation."""
-        if self.INDEX_PGV is None:
+        if self.INDEX_PGV is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGV]
@@ -370,7 +370,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pgd(self) -> float:
         """Peak ground displacement log-standard deviation."""
-        if self.INDEX_PGD is None:
+        if self.INDEX_PGD is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGD]
-- 
2.43.0


From 6564d49e37f97dad43951796228bd183785aa49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 34/44] fix: let Scenario be built from a mapping, which the
 union operator needs

---
 src/pygmm/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 2551469..7dd05ef 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -119,9 +119,13 @@ class Scenario(collections.UserDict):
         "width",
     ]
 
-    def __init__(self, **kwds):
-        """Initialize the scenario."""
-        super().__init__(kwds)
+    def __init__(self, values=None, /, **kwds):
+        """Initialize the scenario.
+
+        As with other mappings, a mapping of values may be given, which also
+        is what the union operator of :class:`collections.UserDict` does.
+        """
+        super().__init__(values, **kwds)
         self._check_keys(self.keys())
 
     def __getattr__(self, item):
-- 
2.43.0


From ba4aa720dd7a184a72f2bcb4d8b7c225f5218fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 35/44] fix: close the data files of the models after reading
 them

---
 src/pygmm/derras_bard_cotton_2014.py | 12 +++++-------
 src/pygmm/stafford_2017.py           | 10 +++++-----
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/pygmm/derras_bard_cotton_2014.py b/src/pygmm/derras_bard_cotton_2014.py
index a062a29..204edbd 100644
--- a/src/pygmm/derras_bard_cotton_2014.py
+++ b/src/pygmm/derras_bard_cotton_2014.py
@@ -24,13 +24,11 @@ class DerrasBardCotton2014(model.GroundMotionModel):
     ABBREV = "DBC13"
 
     # Load the coefficients for the model
-    COEFF = json.load(
-        open(
-            os.path.join(
-                os.path.dirname(__file__), "data", "derras_bard_cotton_2014.json"
-            )
-        )
-    )
+    with open(
+        os.path.join(os.path.dirname(__file__), "data", "derras_bard_cotton_2014.json")
+    ) as _fp:
+        COEFF = json.load(_fp)
+    del _fp
     GRAVITY = 9.80665
     PERIODS = np.array(COEFF["period"])
 
diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index ec90f69..044b50a 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -21,11 +21,11 @@ class Stafford2017:
     ABBREV = "PJS17"
 
     # Load the coefficients for the model
-    COEFF = pd.Series(
-        json.load(
-            open(os.path.join(os.path.dirname(__file__), "data", "stafford_2017.json"))
-        )
-    )
+    with open(
+        os.path.join(os.path.dirname(__file__), "data", "stafford_2017.json")
+    ) as _fp:
+        COEFF = pd.Series(json.load(_fp))
+    del _fp
 
     @staticmethod
     def _sigmoid(f, alpha0, alpha1, alpha2):
-- 
2.43.0


From e6d2dfe09e69508c379c7c415f4bc0d270027587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 36/44] fix: treat numpy numbers of few bits as the numbers
 they are

---
 src/pygmm/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 7dd05ef..364cdec 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -486,6 +486,12 @@ class NumericParameter(Parameter):
                     stacklevel=2,
                 )
 
+        # Numpy scalars of few bits overflow or round within the equations
+        if isinstance(value, np.integer):
+            value = int(value)
+        elif isinstance(value, np.floating):
+            value = float(value)
+
         return value
 
 
-- 
2.43.0


From a8b6d6a501ac8a65dcf1e565414d148ee710952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 37/44] fix: keep integer velocities from overflowing in the
 basin depth estimates

---
 src/pygmm/abrahamson_silva_kamai_2014.py | 4 ++--
 src/pygmm/afshari_stewart_2016.py        | 4 ++--
 src/pygmm/bayless_abrahamson_2019.py     | 2 +-
 src/pygmm/chiou_youngs_2014.py           | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_kamai_2014.py b/src/pygmm/abrahamson_silva_kamai_2014.py
index 8c873fd..5ea15ba 100644
--- a/src/pygmm/abrahamson_silva_kamai_2014.py
+++ b/src/pygmm/abrahamson_silva_kamai_2014.py
@@ -323,12 +323,12 @@ class AbrahamsonSilvaKamai2014(model.GroundMotionModel):
         """
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 610
             slope = -7.67 / power
 
diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 4592a3b..8236bfd 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -117,12 +117,12 @@ class AfshariStewart2016(model.Model):
     def calc_depth_1_0(v_s30: float, region: str = "california") -> float:
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412.39
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 570.94
             slope = -7.15 / power
 
diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 1776e3d..aaaf232 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -200,7 +200,7 @@ class BaylessAbrahamson2019(model.Model):
             depth to a shear-wave velocity of 1,000 m/sec
             (:math:`Z_{1.0}`, km).
         """
-        power = 4
+        power = 4.0
         v_ref = 610
         slope = -7.67 / power
         return (
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index 78355f0..802b423 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -309,12 +309,12 @@ class ChiouYoungs2014(model.GroundMotionModel):
         """
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412.39
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 570.94
             slope = -7.15 / power
 
-- 
2.43.0


From 1f5e982498eddb782d73e015f51654d9c889daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 38/44] fix: keep a copy of the adjustments that AGA16 is given

---
 src/pygmm/abrahamson_gregor_addo_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 58505f4..144605c 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -77,7 +77,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
             if isinstance(adjust_c1, float):
                 self._adjust_c1 = adjust_c1 * np.ones(n)
             else:
-                self._adjust_c1 = np.asarray(adjust_c1)
+                self._adjust_c1 = np.array(adjust_c1)
 
         self._adjust_c4 = adjust_c4
         self._scale_atten = scale_atten
-- 
2.43.0


From e0d70c8d2b4006580d89651348300802b1f37c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 39/44] fix: use series of frequencies by position in the
 Stafford correlations

---
 src/pygmm/stafford_2017.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 044b50a..d3ec90f 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -294,6 +294,11 @@ class Stafford2017:
                 )
             )
 
+        # Series are used by position, whatever their index
+        freqs, sigma_E, sigma_S, sigma_A = (
+            np.asarray(values) for values in (freqs, sigma_E, sigma_S, sigma_A)
+        )
+
         # Check input dimensions
         n = len(freqs)
         if len(sigma_E) != n or len(sigma_S) != n or len(sigma_A) != n:
-- 
2.43.0


From be9524f5038327ca64b4f4b308dd98b6ec1744bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 40/44] fix: no NaN standard deviation next to a conditioning
 period in the Kishida spectrum

---
 src/pygmm/kishida_2017.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pygmm/kishida_2017.py b/src/pygmm/kishida_2017.py
index 2cf4971..dee9b12 100644
--- a/src/pygmm/kishida_2017.py
+++ b/src/pygmm/kishida_2017.py
@@ -81,11 +81,13 @@ def calc_cond_mean_spectrum_vector(
         ln_psas[mask] + np.ravel(mat_covar_12 @ mat_covar_22_inv @ mat_total_resids),
         ln_psas_cond[~mask].data,
     ]
-    # Compute standard deviation, Equation (4)
+    # Compute standard deviation, Equation (4). The variance of a period next to
+    # a conditioning period may round to less than zero.
+    variances = np.diag(
+        mat_covar_11 - (mat_covar_12 @ mat_covar_22_inv @ mat_covar_21)
+    )
     ln_stds_cmsv = np.r_[
-        np.sqrt(
-            np.diag(mat_covar_11 - (mat_covar_12 @ mat_covar_22_inv @ mat_covar_21))
-        ),
+        np.sqrt(np.maximum(variances, 0)),
         np.zeros(ln_psas_cond.count()),
     ]
     # Sort to the original period indices
-- 
2.43.0


From 0598dde9bcb47bdb13ca87c3bdd9336eb747c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:53 +0000
Subject: [PATCH 41/44] fix: stress coefficient of D20-80 for reverse events in
 Afshari and Stewart

---
 src/pygmm/afshari_stewart_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 8236bfd..47ad4f5 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -46,7 +46,7 @@ class AfshariStewart2016(model.Model):
             b_1 = np.array([4.992, 3.170, 4.778])
         elif s.mechanism == "RS":
             b_0 = np.array([0.7806, 1.612, 0.7729])
-            b_1 = np.array([7.061, 4.536, 6.188])
+            b_1 = np.array([7.061, 4.536, 6.579])
         elif s.mechanism == "SS":
             b_0 = np.array([1.279, 2.302, 0.8804])
             b_1 = np.array([5.578, 3.467, 6.188])
-- 
2.43.0


From 31399c09edaffd33c14b152297abff9b054073ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:15 +0000
Subject: [PATCH 42/44] fix: conditional mean spectrum of periods that are not
 increasing

---
 src/pygmm/baker_jayaram_2008.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/baker_jayaram_2008.py b/src/pygmm/baker_jayaram_2008.py
index 748c768..f78afbe 100644
--- a/src/pygmm/baker_jayaram_2008.py
+++ b/src/pygmm/baker_jayaram_2008.py
@@ -90,9 +90,11 @@ def calc_cond_mean_spectrum(
     ln_stds = np.asarray(ln_stds)
 
     correls = calc_correls(periods, period_cond)
-    epsilon = (ln_psa_cond - np.interp(period_cond, periods, ln_psas)) / np.interp(
-        period_cond, periods, ln_stds
-    )
+    # Interpolation requires increasing periods
+    order = np.argsort(periods)
+    epsilon = (
+        ln_psa_cond - np.interp(period_cond, periods[order], ln_psas[order])
+    ) / np.interp(period_cond, periods[order], ln_stds[order])
 
     ln_psas_cms = ln_psas + ln_stds * correls * epsilon
     ln_stds_cms = np.sqrt(ln_stds**2 * (1 - correls**2))
-- 
2.43.0


From 37ff8a515005adf23ac38d0cd0e422903ade1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:15 +0000
Subject: [PATCH 43/44] fix: break shifts of few bits rounded the equations of
 Abrahamson, Gregor and Addo

---
 src/pygmm/abrahamson_gregor_addo_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 144605c..3e662d3 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -77,7 +77,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
             if isinstance(adjust_c1, float):
                 self._adjust_c1 = adjust_c1 * np.ones(n)
             else:
-                self._adjust_c1 = np.array(adjust_c1)
+                self._adjust_c1 = np.array(adjust_c1, dtype=float)
 
         self._adjust_c4 = adjust_c4
         self._scale_atten = scale_atten
-- 
2.43.0


From fe974bf5c24061d51042b4966a50d7c3f38bed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:42 +0000
Subject: [PATCH 44/44] fix: default depth to the bottom of the crust in the
 fault width of Campbell and Bozorgnia

---
 src/pygmm/campbell_bozorgnia_2014.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 1de9d8d..15c54da 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -465,6 +465,9 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         float
             estimated fault width (km)
         """
+        if depth_bot is None:
+            depth_bot = 15.0
+
         return min(
             np.sqrt(10 ** ((mag - 4.07) / 0.98)),
             (depth_bot - depth_tor) / np.sin(np.radians(dip)),
-- 
2.43.0

