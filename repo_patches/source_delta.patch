From 910457d530d92a8519e9f853ff401101ea948ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 01/52] fix: map repeated areas to the first aperture with that
 area in calculate_petrosian

---
 petrofit/petrosian/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..44789bc 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -79,7 +79,11 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     petrosian_list = np.insert(petrosian_list, 0, np.nan)
 
     # Match input
-    _, unique_indices = np.unique(area_list, return_inverse=True)
+    # Repeated areas share the value of the first aperture with that area
+    _, first_indices, inverse_indices = np.unique(
+        area_list, return_index=True, return_inverse=True
+    )
+    unique_indices = first_indices[inverse_indices]
     petrosian_list = petrosian_list[unique_indices]
 
     if area_err is not None or flux_err is not None:
-- 
2.43.0


From d668f0c72e2117ba2afe1d67a3e40e0540ae416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 02/52] fix: do not truncate the Petrosian profile of integer
 areas

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 44789bc..6ea3d83 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -52,8 +52,8 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     """
 
     # Convert input to array
-    area_list = np.array(area_list)
-    flux_list = np.array(flux_list)
+    area_list = np.array(area_list, dtype=float)
+    flux_list = np.array(flux_list, dtype=float)
 
     # Validate input
     assert len(area_list) == len(flux_list)
-- 
2.43.0


From c70302d1d8613187ccccf5dea76ef3b550859a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 03/52] fix: finite Petrosian error where two apertures enclose
 the same flux

---
 petrofit/petrosian/core.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 6ea3d83..50d3cb7 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -101,9 +101,9 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
         # Compute the error in the surface brightness at the edge of each aperture
         I_at_r_err = np.zeros_like(area_diff)
-        I_at_r_err[zero_mask] = abs(I_at_r[zero_mask]) * np.sqrt(
-            (flux_diff_err[zero_mask] / flux_diff[zero_mask]) ** 2
-            + (area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
+        I_at_r_err[zero_mask] = np.sqrt(
+            (flux_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
+            + (I_at_r[zero_mask] * area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
         )
 
         # Compute the error in the average surface brightness within each aperture
@@ -113,9 +113,14 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
         # Compute the error in the Petrosian value at each radius
         petrosian_err = np.zeros_like(area_diff)
-        petrosian_err[zero_mask] = abs(petrosian_list[1:][zero_mask]) * np.sqrt(
-            (I_at_r_err[zero_mask] / I_at_r[zero_mask]) ** 2
-            + (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
+        petrosian_err[zero_mask] = np.sqrt(
+            (I_at_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
+            + (
+                petrosian_list[1:][zero_mask]
+                * I_avg_within_r_err[zero_mask]
+                / I_avg_within_r[zero_mask]
+            )
+            ** 2
         )
 
         # Append the first Petrosian error to the beginning of the array
-- 
2.43.0


From 5ba2ad6936c669abdd48928a456859eda3a164e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 04/52] fix: half_flux_err read attributes that do not exist

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 50d3cb7..5fbf811 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -831,13 +831,13 @@ class Petrosian:
         Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
         Note that this includes errors in estimating `r_half_flux`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_flux_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
+        flux_err = f(self.r_half_light)
         return np.sqrt(flux_err**2 + r_half_flux_err**2)
 
     @property
-- 
2.43.0


From 7c2a4ae99f82b1703589dd85ee443d7283f86a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 05/52] fix: total_flux and half_flux raised with
 interp_kind=None

---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 5fbf811..246fd11 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -793,7 +793,11 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -821,7 +825,11 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From fa11bca8094479de9c4b1a458921c1badbdce293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 06/52] fix: fraction_to_r raised when r_epsilon is below the
 smallest radius or nan

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 246fd11..2334116 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -297,7 +297,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if not min(r_list) <= r_epsilon <= max(r_list):
         return np.nan, np.nan
 
     f = interp1d(
-- 
2.43.0


From f4b946dd02d997e4014c86be1c230c3a540eb220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 07/52] fix: plot_cog raised when only area errors are given

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 2334116..4b1e69f 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1155,7 +1155,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From 504835d8c0b7be04081aa1e8c5359454d1fc5a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 08/52] fix: keep the radius axis label when no radius unit is
 given

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 4b1e69f..0b33550 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1066,7 +1066,7 @@ class Petrosian:
         ax.axhline(0, c="black")
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
@@ -1206,7 +1206,7 @@ class Petrosian:
 
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(
-- 
2.43.0


From 6cbc6441b8f659dc1d7ef185c0f86796bfd6f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 09/52] fix: fraction_to_r raised when the 1-sigma range of
 r_epsilon leaves the radii list

---
 petrofit/petrosian/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0b33550..8c1785b 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -327,6 +327,12 @@ def fraction_to_r(
     )
     r_epsilon_err = r_petrosian_err
 
+    # The error can not be computed if the 1-sigma range of r_epsilon is not covered
+    if r_epsilon - r_epsilon_err < min(r_list) or r_epsilon + r_epsilon_err > max(
+        r_list
+    ):
+        return r_frac, np.nan
+
     # Compute the fractional_flux_err error
     f_lower = interp1d(
         r_list,
-- 
2.43.0


From 7e6cb775f6cdbc4af4448056c9f8dfd264a0224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 10/52] fix: hst_flux_to_abmag raised for numpy scalars and
 integer arrays

---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..b87fcf3 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -60,8 +60,8 @@ def make_radius_list(max_pix, n, log=False):
 def hst_flux_to_abmag(flux, header):
     """Convert HST flux to AB Mag"""
     if not type(flux) in [int, float]:
-        flux = np.array(flux)
-        flux[np.where(flux <= 0)] = np.nan
+        flux = np.array(flux, dtype=float)
+        flux = np.where(flux <= 0, np.nan, flux)
     elif flux <= 0:
         return np.nan
 
-- 
2.43.0


From 62a881c2bff25d953673b858c8d6b9eac6c977dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 11/52] fix: cutout_subtract modified its input and raised for
 odd or clipped targets

---
 petrofit/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index b87fcf3..53d6ce5 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -229,11 +229,12 @@ def cutout_subtract(image, target, x, y):
         subtracted
     """
 
+    image = image.copy()
     dy, dx = target.shape
-    bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
-    bounds[bounds < 0] = 0
-    ymin, ymax, xmin, xmax = bounds
-    image[ymin:ymax, xmin:xmax] -= target
+    y0, x0 = y - dy // 2, x - dx // 2
+    ymin, ymax = np.clip([y0, y0 + dy], 0, image.shape[0])
+    xmin, xmax = np.clip([x0, x0 + dx], 0, image.shape[1])
+    image[ymin:ymax, xmin:xmax] -= target[ymin - y0 : ymax - y0, xmin - x0 : xmax - x0]
     return image
 
 
-- 
2.43.0


From 7ce6f01280fdea522ab87f4b49931b258cda963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 12/52] fix: estimate_epsilon read a grid column that does not
 exist for epsilon_fraction=0.5

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From 339a982b4df69e7f2f24d89b9621a502c891a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 13/52] fix: format the epsilon_fraction error message

---
 petrofit/petrosian/correction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 0c29e1c..aefca13 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -489,7 +489,9 @@ class PetrosianCorrection:
             r_ep = row["c_r_99"]
         else:
             raise ValueError(
-                "Input epsilon_fraction={} is not supported, choose from [0.5, 0.8, 0.99]"
+                "Input epsilon_fraction={} is not supported, choose from [0.5, 0.8, 0.99]".format(
+                    epsilon_fraction
+                )
             )
 
         if eta not in self.eta_keys.keys():
-- 
2.43.0


From 58b19c9b49ee95dd38618528b16bafe4bc3ec58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 14/52] fix: PetrosianCorrection returned the first grid row
 for unmeasurable profiles

---
 petrofit/petrosian/correction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index aefca13..6d7886d 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -450,6 +450,9 @@ class PetrosianCorrection:
         """Given x0, y0, z0 nearest grid row"""
         if self.enforce_range:
             self._validate_input(x0, y0, z0)
+        assert not np.any(
+            np.isnan([x0, y0, z0])
+        ), "r_petro(eta=0.2), r_50 or C2080 could not be measured"
         dr = self._dr(x0, y0, z0)
         return self.grid[dr.argmin()]
 
-- 
2.43.0


From f18716b7ff5eec2c1cd4f197f8e4e327f242d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 15/52] fix: segm_mask appended the background label to the
 list of the caller

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From 9cc15808cdcb53264366b23d7f472c4227f74481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 16/52] fix: clip the background at mean +/- sigma value for
 sigma_type='bound'

---
 petrofit/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 40f4b5f..88e488f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -660,8 +660,8 @@ def source_photometry(
                     )
 
                     fit_bg_image = masked_stats_image
-                    fit_bg_image[np.where(fit_bg_image > mean + std * sigma)] = np.nan
-                    fit_bg_image[np.where(fit_bg_image < mean - std * sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
                     raise (
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
-- 
2.43.0


From 323fac1e8b63d0e1249629abd5d878211c4de3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 17/52] fix: raise ValueError for an unknown sigma_type

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 88e488f..ee56383 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -663,7 +663,7 @@ def source_photometry(
                     fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
                     fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
-                    raise (
+                    raise ValueError(
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
                     )
 
-- 
2.43.0


From 9d3299f1a0bf9b5a4d23e24bab9cd27c8c6f7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 18/52] fix: radial_photometry rounded the flux of images in
 small units to zero

---
 petrofit/photometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/photometry.py b/petrofit/photometry.py
index c3a3907..951364c 100644
--- a/petrofit/photometry.py
+++ b/petrofit/photometry.py
@@ -209,9 +209,9 @@ def radial_photometry(
         )
 
         aperture_area = float(np.round(aperture_area, 6))
-        photometric_value = float(np.round(photometric_value, 6))
+        photometric_value = float(photometric_value[0])
         photometric_err = (
-            float(np.round(photometric_err, 6)) if photometric_err.size > 0 else np.nan
+            float(photometric_err[0]) if photometric_err.size > 0 else np.nan
         )
 
         if np.isnan(photometric_value):
-- 
2.43.0


From 1503fc100147fd03e8bca6f81ead4b9bb2c5aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 19/52] fix: GenSersic2D relied on a private astropy attribute
 that no longer exists

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..83f0f2d 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -573,12 +573,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From 0b32b9873005fd238d65202c854973c468473be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 20/52] fix: Nuker2D radius was too large by sqrt(2)

---
 petrofit/modeling/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 83f0f2d..c9a5637 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -589,9 +589,7 @@ class GenSersic2D(models.Sersic2D):
 @custom_model
 def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=0):
     """Two dimensional Nuker2D model"""
-    x_maj = (x - x_0) + (y - y_0)
-    x_min = -(x - x_0) + (y - y_0)
-    r = np.sqrt((x_maj) ** 2 + (x_min) ** 2)
+    r = np.sqrt((x - x_0) ** 2 + (y - y_0) ** 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From 8334c11eb1137b56d6555eb89fd39ca49ddfd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 21/52] fix: CoreSersic2D mixed normalised radii with r_break
 and r_eff in pixels

---
 petrofit/modeling/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index c9a5637..36918e3 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -624,7 +624,7 @@ def CoreSersic2D(
     cos_theta, sin_theta = np.cos(theta), np.sin(theta)
     x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
     x_min = -(x - x_0) * sin_theta + (y - y_0) * cos_theta
-    r = np.sqrt((x_maj / a) ** 2 + (x_min / b) ** 2)
+    r = r_eff * np.sqrt((x_maj / a) ** 2 + (x_min / b) ** 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From fb67ecec129f7dadf6a2b7187ea6e07b2ec7e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 22/52] fix: PSFConvolvedModel2D truncated pixel indices for
 fractional image origins

---
 petrofit/modeling/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 36918e3..156d9c9 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -381,8 +381,8 @@ class PSFConvolvedModel2D(FittableModel):
         *sub_model_params, psf_p = params
 
         # Prepare image indices
-        i = (x - x.min()).astype(int)
-        j = (y - y.min()).astype(int)
+        i = np.rint(x - x.min()).astype(int)
+        j = np.rint(y - y.min()).astype(int)
 
         # Is oversampling sub-grid based
         is_subgrid_oversample = isinstance(self.oversample, tuple)
-- 
2.43.0


From 97d009c7d945000ad1d098229558aefc413e454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 23/52] fix: place the oversampling window relative to the
 image origin and clip it to the image

---
 petrofit/modeling/models.py | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 156d9c9..e913ff5 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -474,11 +474,10 @@ class PSFConvolvedModel2D(FittableModel):
                     idx = self._model.param_names.index(sub_grid_y0)
                     sub_grid_y0 = sub_model_params[idx][0] if isinstance(sub_model_params[idx], (list, np.ndarray)) else sub_model_params[idx]
 
-                # Compute the corner of the sub-grid
-                sub_grid_origin = (
-                    np.round(sub_grid_x0) - sub_grid_size // 2,
-                    np.round(sub_grid_y0) - sub_grid_size // 2,
-                )
+                # Compute the corner of the sub-grid (in image pixel indices)
+                i_sub_0 = int(np.round(sub_grid_x0 - x.min())) - sub_grid_size // 2
+                j_sub_0 = int(np.round(sub_grid_y0 - y.min())) - sub_grid_size // 2
+                sub_grid_origin = (x.min() + i_sub_0, y.min() + j_sub_0)
 
                 # Make an oversampled sub-grid for window
                 x_sub_grid, y_sub_grid = make_grid(
@@ -497,20 +496,21 @@ class PSFConvolvedModel2D(FittableModel):
                 )
 
                 # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
-                i_sub_max = i_sub_min + sub_grid_size
-                j_sub_max = j_sub_min + sub_grid_size
-
-                # Clip window indices
-                if i_sub_min < 0:
-                    i_sub_min = 0
-                if j_sub_min < 0:
-                    j_sub_min = 0
-                if i_sub_max > i.max():
-                    i_sub_max = i.max() + 1
-                if j_sub_max > j.max():
-                    j_sub_max = j.max() + 1
+                # and clip the window to the main grid
+                i_sub_min, i_sub_max = np.clip(
+                    [i_sub_0, i_sub_0 + sub_grid_size], 0, grid_size
+                )
+                j_sub_min, j_sub_max = np.clip(
+                    [j_sub_0, j_sub_0 + sub_grid_size], 0, grid_size
+                )
+
+                # Crop the parts of the window outside the main grid
+                sub_model_image = sub_model_image[
+                    (j_sub_min - j_sub_0) * psf_factor : (j_sub_max - j_sub_0)
+                    * psf_factor,
+                    (i_sub_min - i_sub_0) * psf_factor : (i_sub_max - i_sub_0)
+                    * psf_factor,
+                ]
 
                 # Convert to PSF resolution
                 i_sub_min *= psf_factor
-- 
2.43.0


From 7c0953ccf9e9e7cfdc74366da84b4a2d96807baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 24/52] fix: reject oversample=None while the PSF is
 oversampled

---
 petrofit/modeling/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index e913ff5..aef62a0 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -270,6 +270,10 @@ class PSFConvolvedModel2D(FittableModel):
     @oversample.setter
     def oversample(self, oversample):
         psf_oversample = self._get_psf_factor()
+        if oversample is None and psf_oversample > 1:
+            raise ValueError(
+                "oversample should be equal to or an integer multiple of psf_oversample"
+            )
         if oversample is not None:
             if isinstance(oversample, (tuple, list, np.ndarray)):
                 if len(oversample) != 4:
-- 
2.43.0


From a684140487408a298a00173abe150ba5f3feaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 25/52] fix: PSFConvolvedModel2D dropped the tied constraints
 of the wrapped model

---
 petrofit/modeling/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index aef62a0..95e5f79 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -195,6 +195,8 @@ class PSFConvolvedModel2D(FittableModel):
             self.fixed.update(model.fixed)
         if "bounds" not in kwargs:
             self.bounds.update(model.bounds)
+        if "tied" not in kwargs:
+            self.tied.update(model.tied)
 
     def _load_parameters(self):
         """Function to load parameters from the sub-model"""
-- 
2.43.0


From daa3a8028eaba118fd05e4e3a1a19f3be2af2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 26/52] fix: fit_model returned the fitter class instead of the
 fitter that ran

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..2d2cdf8 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -123,7 +123,7 @@ def fit_model(
     else:
         fitted_model = fitter_instance(model, x_arange, y_arange, z, weights=w)
 
-    return fitted_model, fitter
+    return fitted_model, fitter_instance
 
 
 def _validate_image_size(size):
-- 
2.43.0


From 99bdae6a1149ea440e5841a1fa8e0f582e9fb5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 27/52] fix: non-linear fitters ignored the mask of masked
 (sigma clipped) images

---
 petrofit/modeling/fitting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 2d2cdf8..515ff79 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -92,6 +92,10 @@ def fit_model(
             Fitter used to estimate and set model parameters.
     """
 
+    # Leave out masked pixels, not all fitters support masked arrays
+    if isinstance(image, np.ma.MaskedArray):
+        image = np.ma.filled(image.astype(float), np.nan)
+
     # Make x and y grid to fit to
     y_arange, x_arange = np.where(~(np.isnan(image)))
 
-- 
2.43.0


From 18eea80ffa2179734547299f7120844ffe511efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 28/52] fix: measure_fwhm raised with plot=True

---
 petrofit/modeling/fitting.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 515ff79..74cfefd 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -540,10 +540,9 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
+        plot_fit(fitted_line, image)
 
-        # Make x and y grid to plot to
-        y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
+        fig, [ax0, ax2, ax3] = plt.subplots(1, 3, figsize=[18, 6])
 
         # Plot input image with FWHM and center
         # -------------------------------------
@@ -562,6 +561,9 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot X fit
         # ----------
 
+        x_arange = np.arange(image.shape[1])
+        ax2.plot(x_arange, image[int(np.clip(np.round(y_mean), 0, image.shape[0] - 1))])
+        ax2.plot(x_arange, fitted_line(x_arange, np.full(x_arange.shape, y_mean)))
         ax2.axvline(x_mean, linestyle="-", label="Center")
         ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
         ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
@@ -572,6 +574,11 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot Y fit
         # ----------
 
+        y_arange = np.arange(image.shape[0])
+        ax3.plot(
+            y_arange, image[:, int(np.clip(np.round(x_mean), 0, image.shape[1] - 1))]
+        )
+        ax3.plot(y_arange, fitted_line(np.full(y_arange.shape, x_mean), y_arange))
         ax3.axvline(y_mean, linestyle="-", label="Center")
         ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
         ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-- 
2.43.0


From 17004eb9ed2a1752dffc00d42448c67ac28acc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 29/52] fix: total_flux_err and half_flux_err added a radius to
 a flux in quadrature

---
 petrofit/petrosian/core.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8c1785b..7de6e4e 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -807,6 +807,22 @@ class Petrosian:
         total_flux = f(r_total_flux)
         return float(total_flux)
 
+    def _flux_err_at_r(self, r, r_err):
+        """
+        Photometric uncertainty at `r`, includes the uncertainty
+        in flux due to the uncertainty in the radius (`r_err`).
+        """
+        f_err = interp1d(self.r_list, self.flux_err, kind="nearest")
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
+        r_low, r_high = np.clip(
+            [r - r_err, r + r_err], min(self.r_list), max(self.r_list)
+        )
+        return np.sqrt(f_err(r) ** 2 + ((f(r_high) - f(r_low)) / 2.0) ** 2)
+
     @property
     def total_flux_err(self):
         """
@@ -819,9 +835,7 @@ class Petrosian:
         if self.flux_err is None or np.isnan(self.total_flux):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_total_flux)
-        return np.sqrt(flux_err**2 + r_total_flux_err**2)
+        return self._flux_err_at_r(r_total_flux, r_total_flux_err)
 
     @property
     def half_flux(self):
@@ -850,9 +864,7 @@ class Petrosian:
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_light)
-        return np.sqrt(flux_err**2 + r_half_flux_err**2)
+        return self._flux_err_at_r(self.r_half_light, r_half_flux_err)
 
     @property
     def r_half_light(self):
-- 
2.43.0


From 208d7a2f738f5e20ec6303143a3501d16fdf580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 30/52] fix: enforce_range docstring described the opposite of
 the behaviour

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 6d7886d..2d35725 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -353,7 +353,7 @@ class PetrosianCorrection:
             Use `PetrosianCorrection.read(file_path)` to read grid from file.
 
         enforce_range : bool
-            If true, the nearest approximation is returned. If false, an assertion will be applied that makes sure
+            If false, the nearest approximation is returned. If true, an assertion will be applied that makes sure
             that the profiles to be corrected are covered by the correction grid.
         """
 
-- 
2.43.0


From 6d02bb5cb130e244ed450111c9ac9a26c5fe5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 31/52] fix: closest_value_index returned the index of a nan

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 53d6ce5..131c234 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -162,7 +162,7 @@ def closest_value_index(value, array, growing=False):
     idx = None
     if idx_list.size > 0:
         idx = idx_list[0]
-        idx = abs(array[: idx + 1] - value).argmin()
+        idx = np.nanargmin(abs(array[: idx + 1] - value))
     return idx
 
 
-- 
2.43.0


From b57107777962a77ac1cf04bfbb69027cafeb38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 32/52] fix: integer errors overflowed when squared in
 calculate_petrosian

---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 7de6e4e..be0f3b6 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -88,8 +88,16 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
     if area_err is not None or flux_err is not None:
         # Convert input to array
-        area_err = np.zeros_like(area_list) if area_err is None else np.array(area_err)
-        flux_err = np.zeros_like(flux_list) if flux_err is None else np.array(flux_err)
+        area_err = (
+            np.zeros_like(area_list)
+            if area_err is None
+            else np.array(area_err, dtype=float)
+        )
+        flux_err = (
+            np.zeros_like(flux_list)
+            if flux_err is None
+            else np.array(flux_err, dtype=float)
+        )
 
         # Validate input
         assert len(area_err) == len(area_list)
-- 
2.43.0


From 7753ff2846dcc72c0b81698910e4d791dc2a36e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 33/52] fix: no flux error where the radius error can not be
 computed

---
 petrofit/petrosian/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index be0f3b6..0569aee 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -820,6 +820,9 @@ class Petrosian:
         Photometric uncertainty at `r`, includes the uncertainty
         in flux due to the uncertainty in the radius (`r_err`).
         """
+        if np.isnan(r_err):
+            return np.nan
+
         f_err = interp1d(self.r_list, self.flux_err, kind="nearest")
         f = interp1d(
             self.r_list,
-- 
2.43.0


From d3c651c78997d4cb60419b6d62aa319075fdfc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 34/52] fix: Petrosian.plot raised for a negative
 r_petrosian_err

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0569aee..fdc9bb3 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1080,7 +1080,7 @@ class Petrosian:
                     ax.errorbar(
                         r_petrosian,
                         self.eta,
-                        xerr=r_petrosian_err,
+                        xerr=abs(r_petrosian_err),
                         zorder=6,
                         marker="o",
                         capsize=5,
-- 
2.43.0


From 40c60d4456cc2023bfaa6f47572e623e57cb7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 35/52] fix: fraction_to_r raised for a negative
 r_petrosian_err

---
 petrofit/petrosian/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index fdc9bb3..5be9191 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -336,9 +336,8 @@ def fraction_to_r(
     r_epsilon_err = r_petrosian_err
 
     # The error can not be computed if the 1-sigma range of r_epsilon is not covered
-    if r_epsilon - r_epsilon_err < min(r_list) or r_epsilon + r_epsilon_err > max(
-        r_list
-    ):
+    r_epsilon_range = [r_epsilon - r_epsilon_err, r_epsilon + r_epsilon_err]
+    if min(r_epsilon_range) < min(r_list) or max(r_epsilon_range) > max(r_list):
         return r_frac, np.nan
 
     # Compute the fractional_flux_err error
-- 
2.43.0


From c3f817279e4d40bbccbd153f7fcda19d35cdb5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 36/52] fix: natural_sort raised for strings of non-ASCII
 digits

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 131c234..8b097d4 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -32,7 +32,7 @@ __all__ = [
 
 def natural_sort(l):
     """Sort the given list of strings or numbers without needing leading zeros"""
-    convert = lambda text: int(text) if text.isdigit() else text.lower()
+    convert = lambda text: int(text) if re.fullmatch("[0-9]+", text) else text.lower()
     alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", key)]
     return sorted(l, key=alphanum_key)
 
-- 
2.43.0


From 03801ddc3719dee1feab0beebb9cbd4972169f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 37/52] fix: fit_gaussian2d and measure_fwhm swapped the x and
 y widths

---
 petrofit/modeling/fitting.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 74cfefd..b141509 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -322,6 +322,17 @@ def fit_gaussian2d(image):
     # Fit model to grid
     fitted_model, fit = fit_model(image, model)
 
+    # A rotation by 90 degrees swaps the two axes, so keep x_stddev along the
+    # axis which is closest to the x direction (same fit, |theta| <= 45 degrees)
+    x_stddev, y_stddev = np.abs(
+        [fitted_model.x_stddev.value, fitted_model.y_stddev.value]
+    )
+    quarter_turns = int(np.round(fitted_model.theta.value / (np.pi / 2)))
+    if quarter_turns % 2:
+        x_stddev, y_stddev = y_stddev, x_stddev
+    fitted_model.x_stddev, fitted_model.y_stddev = x_stddev, y_stddev
+    fitted_model.theta = fitted_model.theta.value - quarter_turns * np.pi / 2
+
     return fitted_model
 
 
-- 
2.43.0


From 377508c9cc9d3337375610fd0735ad1830d2f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 38/52] fix: get_amplitude_at_r returned a number for a nan
 radius

---
 petrofit/segmentation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index ee56383..d9e0237 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -141,6 +141,9 @@ def get_amplitude_at_r(r, image, x0, y0, ellip, theta):
     r = float(r)
 
     try:
+        if not np.isfinite(r):
+            raise ValueError("the isophotal radius `r` is not finite.")
+
         # Define EllipseGeometry using ellip and theta
         g = EllipseGeometry(x0, y0, 1.0, ellip, theta)
 
-- 
2.43.0


From 2140957dc0d19a1ad527cb20b011418a34233fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 39/52] fix: Petrosian plots set the ticks of the current axes
 instead of the given ones

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 5be9191..4023cf6 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1099,7 +1099,7 @@ class Petrosian:
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         if show_legend:
@@ -1242,7 +1242,7 @@ class Petrosian:
             fontsize=ax_fontsize,
         )
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         ax.set_ylim(0, None)
-- 
2.43.0


From 2e0109fa4da629271c9fb8b350f4aee775edcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 40/52] fix: total flux percentage in the plot labels was
 truncated

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 4023cf6..47cf50b 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -954,7 +954,7 @@ class Petrosian:
 
         r_total_flux = self.r_total_flux
         if not np.isnan(r_total_flux):
-            total_flux_fraction = int(self.total_flux_fraction * 100)
+            total_flux_fraction = "{:g}".format(self.total_flux_fraction * 100)
             ax.axvline(
                 r_total_flux,
                 linestyle="--",
@@ -1215,7 +1215,7 @@ class Petrosian:
             r_total_flux = self.r_total_flux
             total_flux = self.total_flux
             if not np.isnan(r_total_flux) and not np.isnan(total_flux):
-                total_flux_fraction = int(self.total_flux_fraction * 100)
+                total_flux_fraction = "{:g}".format(self.total_flux_fraction * 100)
                 ax.axvline(
                     r_total_flux,
                     linestyle="-",
-- 
2.43.0


From 01aaec1de886c656ac5f69c5ad9006864b2c19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 41/52] fix: plot_correction joined unmeasurable profiles to
 the first grid row

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 2d35725..2fde780 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -605,7 +605,7 @@ class PetrosianCorrection:
         ax.set_ylabel(r"$C_{2080}$")
         mpl_tick_frame(ax=ax, minorticks=minorticks)
 
-        if None not in [x0, y0, z0]:
+        if not np.any(np.isnan(np.array([x0, y0, z0], dtype=float))):
             idx = self._dr(x0, y0, z0).argmin()
             cx, cy, cz = self.x[idx], self.y[idx], self.z[idx]
 
-- 
2.43.0


From 5b388ec74d08b1fd793d63aea034e0048f4ff425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 42/52] fix: mask integer images with nan or fractional fill
 values

---
 petrofit/segmentation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index d9e0237..491dc55 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -281,9 +281,13 @@ def masked_segm_image(source, image, segm, fill=None, mask_background=False):
 
     masked_image = deepcopy(image)
 
+    # Integer images can not hold nan or fractional fill values
     if isinstance(masked_image, np.ndarray):
+        masked_image = masked_image.astype(np.result_type(masked_image.dtype, fill))
         masked_image[np.invert(mask)] = fill
     else:
+        data = masked_image.data
+        masked_image.data = data.astype(np.result_type(data.dtype, fill))
         masked_image.data[np.invert(mask)] = fill
 
     return masked_image
-- 
2.43.0


From 8c0bc7d980b926f3c20e2978196c4cd198ae02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 43/52] fix: subtract floating-point cutouts from integer
 images

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 8b097d4..994c08e 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -229,7 +229,7 @@ def cutout_subtract(image, target, x, y):
         subtracted
     """
 
-    image = image.copy()
+    image = image.astype(np.result_type(image.dtype, target.dtype))
     dy, dx = target.shape
     y0, x0 = y - dy // 2, x - dx // 2
     ymin, ymax = np.clip([y0, y0 + dy], 0, image.shape[0])
-- 
2.43.0


From dd4ab852af974747f760ff041fc2a07020d6753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 44/52] fix: rotate integer PSFs without truncating them to
 integers

---
 petrofit/modeling/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 95e5f79..a673cc2 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -534,7 +534,7 @@ class PSFConvolvedModel2D(FittableModel):
             
             psf_p = psf_p[0] if isinstance(psf_p, (list, np.ndarray)) else psf_p 
             if psf_p != 0:
-                psf = rotate(psf, psf_p, reshape=False)
+                psf = rotate(psf, psf_p, reshape=False, output=float)
             model_image = convolve(model_image, psf, mode="same")
 
         if psf_factor > 1:
-- 
2.43.0


From 1452ebd5462df1c514487ec2c4ac4694702e3b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 45/52] fix: closest_value_index of unsigned arrays

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 994c08e..11b6acb 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -162,7 +162,7 @@ def closest_value_index(value, array, growing=False):
     idx = None
     if idx_list.size > 0:
         idx = idx_list[0]
-        idx = np.nanargmin(abs(array[: idx + 1] - value))
+        idx = np.nanargmin(abs(np.subtract(array[: idx + 1], value, dtype=float)))
     return idx
 
 
-- 
2.43.0


From 941d777fd0bd7ed235352096f991c700b23abedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 46/52] fix: elliptical_area_to_r overflowed for narrow integer
 areas

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 11b6acb..c663c30 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -109,7 +109,7 @@ def pixel_to_angular(pixel_size, wcs):
 
 def elliptical_area_to_r(area, elong):
     """Convert elliptical area to radius by providing elongation"""
-    a = np.sqrt(elong * area / (np.pi))
+    a = np.sqrt(elong * (area / np.pi))
     b = a / elong
     return a, b
 
-- 
2.43.0


From fd8a2691ac0d21c7f414973cfff547d5f9cc03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 47/52] fix: errors of narrow integer error maps overflowed in
 radial_photometry

---
 petrofit/photometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/petrofit/photometry.py b/petrofit/photometry.py
index 951364c..de86a79 100644
--- a/petrofit/photometry.py
+++ b/petrofit/photometry.py
@@ -198,6 +198,8 @@ def radial_photometry(
         ax.set_ylabel("Pixels")
 
     mask = ~mask if mask is not None else None
+    # Squares of integer errors can overflow
+    error = np.asanyarray(error, dtype=float) if error is not None else None
     for i, r in enumerate(r_list):
         aperture = radial_elliptical_aperture(position, r, elong=elong, theta=theta)
 
-- 
2.43.0


From edc0079e9b3f083e4421d5c7b2fbed4f31f2805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 48/52] fix: cutout_subtract of narrow or unsigned integers
 wrapped around

---
 petrofit/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index c663c30..92d22c0 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -229,7 +229,11 @@ def cutout_subtract(image, target, x, y):
         subtracted
     """
 
-    image = image.astype(np.result_type(image.dtype, target.dtype))
+    dtype = np.result_type(image.dtype, target.dtype)
+    if np.issubdtype(dtype, np.integer):
+        # Differences of narrow or unsigned integers can wrap around
+        dtype = np.result_type(dtype, np.int64)
+    image = image.astype(dtype)
     dy, dx = target.shape
     y0, x0 = y - dy // 2, x - dx // 2
     ymin, ymax = np.clip([y0, y0 + dy], 0, image.shape[0])
-- 
2.43.0


From e31c54ff48db36e6915c8a4f53a13ee3d23b6cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 49/52] fix: mask narrow or unsigned integer images with fill
 values outside their range

---
 petrofit/segmentation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 491dc55..98bd9d0 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -281,14 +281,17 @@ def masked_segm_image(source, image, segm, fill=None, mask_background=False):
 
     masked_image = deepcopy(image)
 
-    # Integer images can not hold nan or fractional fill values
-    if isinstance(masked_image, np.ndarray):
-        masked_image = masked_image.astype(np.result_type(masked_image.dtype, fill))
-        masked_image[np.invert(mask)] = fill
+    # Integer images can not hold nan, fractional or out of range fill values
+    is_array = isinstance(masked_image, np.ndarray)
+    data = masked_image if is_array else masked_image.data
+    if not np.can_cast(np.min_scalar_type(fill), data.dtype):
+        data = data.astype(float)
+    data[np.invert(mask)] = fill
+
+    if is_array:
+        masked_image = data
     else:
-        data = masked_image.data
-        masked_image.data = data.astype(np.result_type(data.dtype, fill))
-        masked_image.data[np.invert(mask)] = fill
+        masked_image.data = data
 
     return masked_image
 
-- 
2.43.0


From 4bee8bdac5ed95833dbc3386a293256c4ee080cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 50/52] fix: deblend unsigned images like their values

---
 petrofit/segmentation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 98bd9d0..cf02f2a 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -371,6 +371,9 @@ def deblend_segments(image, segm, npixels=None, nlevels=30, contrast=1 / 1000):
         sources are marked by different positive integer values.  A
         value of zero is reserved for the background.
     """
+    if getattr(getattr(image, "dtype", None), "kind", None) == "u":
+        image = image.astype(float)  # The watershed runs on the negated image
+
     segm_deblend = deblend_sources(
         image, segm, npixels=npixels, nlevels=nlevels, contrast=contrast
     )
-- 
2.43.0


From 77dd78355b39c93769dc66edb49faa283fa142e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 51/52] fix: flux error bands of unsigned profiles wrapped
 around

---
 petrofit/petrosian/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 47cf50b..eb3e69c 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -297,9 +297,9 @@ def fraction_to_r(
     """
 
     r_list = np.array(r_list)
-    flux_list = np.array(flux_list)
+    flux_list = np.array(flux_list, dtype=float)
     if flux_err is not None:
-        flux_err = np.array(flux_err)
+        flux_err = np.array(flux_err, dtype=float)
     if r_petrosian_err is not None:
         r_petrosian_err = np.array(r_petrosian_err)
 
@@ -562,10 +562,10 @@ class Petrosian:
 
         self._r_list = np.array(r_list)
         self._area_list = np.array(area_list)
-        self._flux_list = np.array(flux_list)
+        self._flux_list = np.array(flux_list, dtype=float)
 
         self._area_err = None if area_err is None else np.array(area_err)
-        self._flux_err = None if flux_err is None else np.array(flux_err)
+        self._flux_err = None if flux_err is None else np.array(flux_err, dtype=float)
 
         self._validate_input_arrays()
 
-- 
2.43.0


From 7bbe54662752ec31704cb3f1085f89a136c9feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:39 +0000
Subject: [PATCH 52/52] fix: fit_gaussian2d and measure_fwhm start from the
 brightest valid pixel, nan pixels are left out

---
 petrofit/modeling/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index b141509..f7fba81 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -316,7 +316,7 @@ def fit_gaussian2d(image):
 
     # Create model to fit
     model = models.Gaussian2D(
-        amplitude=image.max(), x_mean=x_mean, y_mean=y_mean, fixed={}
+        amplitude=np.nanmax(image), x_mean=x_mean, y_mean=y_mean, fixed={}
     )
 
     # Fit model to grid
@@ -537,7 +537,7 @@ def measure_fwhm(image, plot=True, printout=True):
     # ------------------------------
 
     if printout:
-        print("Image Max: {}".format(image.max()))
+        print("Image Max: {}".format(np.nanmax(image)))
         print("Amplitude: {}".format(fitted_line.amplitude.value))
         print("Center: ({}, {})".format(x_mean, y_mean))
         print(
-- 
2.43.0

