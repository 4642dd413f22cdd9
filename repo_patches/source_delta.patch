From 378e3e76022f6e5f3b5969d60c8a690a1af24afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 01/28] fix: petrosian values after repeated aperture areas
 were shifted

np.unique's inverse indexes the unique values, not the input, so every value
following a repeated area was replaced by an earlier one.
---
 petrofit/petrosian/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..aafcc73 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -79,8 +79,12 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     petrosian_list = np.insert(petrosian_list, 0, np.nan)
 
     # Match input
-    _, unique_indices = np.unique(area_list, return_inverse=True)
-    petrosian_list = petrosian_list[unique_indices]
+    # (repeated areas share the value of the first aperture with that area)
+    _, first_indices, unique_indices = np.unique(
+        area_list, return_index=True, return_inverse=True
+    )
+    match_indices = first_indices[unique_indices]
+    petrosian_list = petrosian_list[match_indices]
 
     if area_err is not None or flux_err is not None:
         # Convert input to array
@@ -118,7 +122,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         petrosian_err = np.insert(petrosian_err, 0, np.nan)
 
         # Match input
-        petrosian_err = petrosian_err[unique_indices]
+        petrosian_err = petrosian_err[match_indices]
 
         return petrosian_list, petrosian_err
     return petrosian_list, None
-- 
2.43.0


From 905d04d834b303ee17ee426a991f927ed5279744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 02/28] fix: calculate_petrosian truncated surface brightness
 for integer areas

---
 petrofit/petrosian/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index aafcc73..3db8061 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -69,7 +69,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
     # Compute the surface brightness at the edge of each aperture
     zero_mask = np.where(area_diff > 0)
-    I_at_r = np.zeros_like(area_diff)
+    I_at_r = np.zeros_like(area_diff, dtype=float)
     I_at_r[zero_mask] = flux_diff[zero_mask] / area_diff[zero_mask]
 
     # Compute the Petrosian value at each radius
@@ -100,7 +100,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         flux_diff_err = np.sqrt(flux_err[:-1] ** 2 + flux_err[1:] ** 2)
 
         # Compute the error in the surface brightness at the edge of each aperture
-        I_at_r_err = np.zeros_like(area_diff)
+        I_at_r_err = np.zeros_like(area_diff, dtype=float)
         I_at_r_err[zero_mask] = abs(I_at_r[zero_mask]) * np.sqrt(
             (flux_diff_err[zero_mask] / flux_diff[zero_mask]) ** 2
             + (area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
@@ -112,7 +112,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         )
 
         # Compute the error in the Petrosian value at each radius
-        petrosian_err = np.zeros_like(area_diff)
+        petrosian_err = np.zeros_like(area_diff, dtype=float)
         petrosian_err[zero_mask] = abs(petrosian_list[1:][zero_mask]) * np.sqrt(
             (I_at_r_err[zero_mask] / I_at_r[zero_mask]) ** 2
             + (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
-- 
2.43.0


From 1b11112a647903d10fda5b415458bd3fe4110f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 03/28] fix: fraction_to_r raised when r_epsilon is below the
 measured radii

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 3db8061..fb109f8 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -292,7 +292,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if not min(r_list) <= r_epsilon <= max(r_list):
         return np.nan, np.nan
 
     f = interp1d(
-- 
2.43.0


From 176b91bcf48f4d9e9e6c6aeb4de91d370b5ccd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 04/28] fix: fraction_to_r raised when the error range of
 r_epsilon leaves the measured radii

---
 petrofit/petrosian/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index fb109f8..9cd625b 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -334,8 +334,9 @@ def fraction_to_r(
         kind="cubic" if interp_kind is None else interp_kind,
     )
 
-    fractional_flux_err_lower = f_lower(r_epsilon - r_epsilon_err)
-    fractional_flux_err_upper = f_upper(r_epsilon + r_epsilon_err)
+    # The 1-sigma range of r_epsilon can extend past the measured radii
+    fractional_flux_err_lower = f_lower(max(r_epsilon - r_epsilon_err, min(r_list)))
+    fractional_flux_err_upper = f_upper(min(r_epsilon + r_epsilon_err, max(r_list)))
 
     fractional_flux_err = (fractional_flux_err_upper - fractional_flux_err_lower) / 2.0
 
-- 
2.43.0


From 9534dca2f4968cabed1b09f367d6405c6f5cce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 05/28] fix: fraction_to_r ignored the interpolation settings
 in its error estimate

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 9cd625b..8139fb0 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -345,13 +345,13 @@ def fraction_to_r(
     fractional_flux_lower = fractional_flux - fractional_flux_err
 
     r_list_lower, flux_list_lower = get_interpolated_values(
-        r_list, flux_list - flux_err
+        r_list, flux_list - flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_upper, flux_list_lower, growing=True)
     r_frac_upper = np.nan if idx is None else r_list_lower[idx]
 
     r_list_upper, flux_list_upper = get_interpolated_values(
-        r_list, flux_list + flux_err
+        r_list, flux_list + flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_lower, flux_list_upper, growing=True)
     r_frac_lower = np.nan if idx is None else r_list_upper[idx]
-- 
2.43.0


From 11b6621accbc433c9e965eac30996a559610554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 06/28] fix: total_flux and half_flux failed for
 interp_kind=None

---
 petrofit/petrosian/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8139fb0..f827b47 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -789,7 +789,8 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        kind = "cubic" if self.interp_kind is None else self.interp_kind
+        f = interp1d(self.r_list, self.flux_list, kind=kind)
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -817,7 +818,8 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        kind = "cubic" if self.interp_kind is None else self.interp_kind
+        f = interp1d(self.r_list, self.flux_list, kind=kind)
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From a8f6fc211506156c089b22b9ecbe284ed5a7c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 07/28] fix: half_flux_err read attributes that do not exist

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index f827b47..8df07ba 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -829,13 +829,13 @@ class Petrosian:
         Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
         Note that this includes errors in estimating `r_half_flux`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_flux_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
+        flux_err = f(self.r_half_light)
         return np.sqrt(flux_err**2 + r_half_flux_err**2)
 
     @property
-- 
2.43.0


From 0b6be8237403082bdad82bcd604f9a1d0ac53a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 08/28] fix: hst_flux_to_abmag failed for numpy scalars and
 integer arrays

---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..cc73872 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -60,8 +60,8 @@ def make_radius_list(max_pix, n, log=False):
 def hst_flux_to_abmag(flux, header):
     """Convert HST flux to AB Mag"""
     if not type(flux) in [int, float]:
-        flux = np.array(flux)
-        flux[np.where(flux <= 0)] = np.nan
+        flux = np.array(flux, dtype=float)
+        flux[flux <= 0] = np.nan
     elif flux <= 0:
         return np.nan
 
-- 
2.43.0


From fde308745558ff599e8ddf4de796ba0bf98345b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 09/28] fix: segm_mask appended the background label to the
 caller's list

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From 0d5a836e7a84455be3636b57795107526084703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 10/28] fix: cutout_subtract modified its input and failed for
 odd sizes and at edges

---
 petrofit/utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index cc73872..d532fd2 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -230,10 +230,19 @@ def cutout_subtract(image, target, x, y):
     """
 
     dy, dx = target.shape
-    bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
-    bounds[bounds < 0] = 0
-    ymin, ymax, xmin, xmax = bounds
-    image[ymin:ymax, xmin:xmax] -= target
+    ny, nx = image.shape
+
+    # Bounds of the target in the image frame
+    ymin, xmin = y - dy // 2, x - dx // 2
+    ymax, xmax = ymin + dy, xmin + dx
+
+    # Clip to the part of the target that overlaps with the image
+    y0, y1 = max(ymin, 0), max(min(ymax, ny), 0)
+    x0, x1 = max(xmin, 0), max(min(xmax, nx), 0)
+
+    image = np.array(image, dtype=np.result_type(image, target))
+    if y0 < y1 and x0 < x1:
+        image[y0:y1, x0:x1] -= target[y0 - ymin : y1 - ymin, x0 - xmin : x1 - xmin]
     return image
 
 
-- 
2.43.0


From 2f8ddf54da30ee54494f6624d55621ebbe1f56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 11/28] fix: Nuker2D radius was sqrt(2) too large

---
 petrofit/modeling/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..c27109b 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -594,9 +594,7 @@ class GenSersic2D(models.Sersic2D):
 @custom_model
 def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=0):
     """Two dimensional Nuker2D model"""
-    x_maj = (x - x_0) + (y - y_0)
-    x_min = -(x - x_0) + (y - y_0)
-    r = np.sqrt((x_maj) ** 2 + (x_min) ** 2)
+    r = np.sqrt((x - x_0) ** 2 + (y - y_0) ** 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From c6eb6a55e91d4618b6a70101f9fef25480cf60b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 12/28] fix: CoreSersic2D divided the radius by r_eff twice

---
 petrofit/modeling/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index c27109b..112ed96 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -625,11 +625,10 @@ def CoreSersic2D(
     Core Sersic model as defined by Graham et al 2003.
     """
     bn = gammaincinv(2.0 * n, 0.5)
-    a, b = r_eff, (1 - ellip) * r_eff
     cos_theta, sin_theta = np.cos(theta), np.sin(theta)
     x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
     x_min = -(x - x_0) * sin_theta + (y - y_0) * cos_theta
-    r = np.sqrt((x_maj / a) ** 2 + (x_min / b) ** 2)
+    r = np.sqrt(x_maj**2 + (x_min / (1 - ellip)) ** 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From e9f4eec5baa1b164879df9d8658bcc49212c8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 13/28] fix: GenSersic2D used a private astropy attribute that
 no longer exists

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 112ed96..8663bc8 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -573,12 +573,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From 845f81756f10d5901251a668e4f4f5e6ad8b526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 14/28] fix: oversample=None was accepted with an oversampled
 PSF

---
 petrofit/modeling/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 8663bc8..d80b88f 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -270,6 +270,10 @@ class PSFConvolvedModel2D(FittableModel):
     @oversample.setter
     def oversample(self, oversample):
         psf_oversample = self._get_psf_factor()
+        if oversample is None and psf_oversample != 1:
+            raise ValueError(
+                "oversample should be equal to or an integer multiple of psf_oversample"
+            )
         if oversample is not None:
             if isinstance(oversample, (tuple, list, np.ndarray)):
                 if len(oversample) != 4:
-- 
2.43.0


From bc47a11916421ffcf375047ef48b9b38d079df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 15/28] fix: oversampling windows ignored the image origin and
 failed at image edges

---
 petrofit/modeling/models.py | 47 ++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index d80b88f..5a3ea5b 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -500,30 +500,29 @@ class PSFConvolvedModel2D(FittableModel):
                     / sub_grid_to_psf_factor**2
                 )
 
-                # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
-                i_sub_max = i_sub_min + sub_grid_size
-                j_sub_max = j_sub_min + sub_grid_size
-
-                # Clip window indices
-                if i_sub_min < 0:
-                    i_sub_min = 0
-                if j_sub_min < 0:
-                    j_sub_min = 0
-                if i_sub_max > i.max():
-                    i_sub_max = i.max() + 1
-                if j_sub_max > j.max():
-                    j_sub_max = j.max() + 1
-
-                # Convert to PSF resolution
-                i_sub_min *= psf_factor
-                j_sub_min *= psf_factor
-                i_sub_max *= psf_factor
-                j_sub_max *= psf_factor
-
-                # Add oversampled window to image
-                model_image[j_sub_min:j_sub_max, i_sub_min:i_sub_max] = sub_model_image
+                # Compute window corner in main image frame at data resolution first
+                i_corner = int(np.round(sub_grid_origin[0] - x.min()))
+                j_corner = int(np.round(sub_grid_origin[1] - y.min()))
+
+                # Clip window indices to the main image
+                i_sub_min = max(i_corner, 0)
+                j_sub_min = max(j_corner, 0)
+                i_sub_max = min(i_corner + sub_grid_size, grid_size)
+                j_sub_max = min(j_corner + sub_grid_size, grid_size)
+
+                if i_sub_min < i_sub_max and j_sub_min < j_sub_max:
+                    # Add oversampled window to image at PSF resolution
+                    model_image[
+                        j_sub_min * psf_factor : j_sub_max * psf_factor,
+                        i_sub_min * psf_factor : i_sub_max * psf_factor,
+                    ] = sub_model_image[
+                        (j_sub_min - j_corner)
+                        * psf_factor : (j_sub_max - j_corner)
+                        * psf_factor,
+                        (i_sub_min - i_corner)
+                        * psf_factor : (i_sub_max - i_corner)
+                        * psf_factor,
+                    ]
 
         # PSF convolve
         # ------------
-- 
2.43.0


From ca4ef9deddc60dc53237d7c947646a3d1c8c4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 16/28] fix: fit_model passed masked pixels to the fitter

---
 petrofit/modeling/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..40f6d18 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -93,9 +93,10 @@ def fit_model(
     """
 
     # Make x and y grid to fit to
-    y_arange, x_arange = np.where(~(np.isnan(image)))
+    # (masked pixels, for example sigma clipped ones, are left out)
+    y_arange, x_arange = np.where(np.ma.filled(~(np.isnan(image)), False))
 
-    z = image[(y_arange, x_arange)]
+    z = np.ma.getdata(image)[(y_arange, x_arange)]
 
     # Prepare weights
     w = None
-- 
2.43.0


From 1e412f4b4a6fe247b6bf5d7d4e0f62306fbf89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 17/28] fix: fit_model returned the fitter class instead of the
 fitter it used

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 40f6d18..7a4573f 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -124,7 +124,7 @@ def fit_model(
     else:
         fitted_model = fitter_instance(model, x_arange, y_arange, z, weights=w)
 
-    return fitted_model, fitter
+    return fitted_model, fitter_instance
 
 
 def _validate_image_size(size):
-- 
2.43.0


From d1b7207d951dd9ebc2307137937f39435f166f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 18/28] fix: estimate_epsilon read a missing grid column for
 epsilon_fraction=0.5

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From 0e5dac1c09225ea597f054425f2906c7f5b489c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 19/28] fix: measure_fwhm crashed when plotting

---
 petrofit/modeling/fitting.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 7a4573f..e5d8252 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -537,10 +537,12 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
+        axs, _, _, _ = plot_fit(fitted_line, image)
+        ax0 = axs[0]
 
-        # Make x and y grid to plot to
-        y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
+        # Make axes for the profiles along x and y
+        fig, [ax2, ax3] = plt.subplots(1, 2, figsize=[12, 6])
+        x_arange, y_arange = np.arange(image.shape[1]), np.arange(image.shape[0])
 
         # Plot input image with FWHM and center
         # -------------------------------------
@@ -559,6 +561,7 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot X fit
         # ----------
 
+        ax2.plot(x_arange, fitted_line(x_arange, y_mean), label="X fit")
         ax2.axvline(x_mean, linestyle="-", label="Center")
         ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
         ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
@@ -569,6 +572,7 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot Y fit
         # ----------
 
+        ax3.plot(y_arange, fitted_line(x_mean, y_arange), label="Y fit")
         ax3.axvline(y_mean, linestyle="-", label="Center")
         ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
         ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-- 
2.43.0


From 3878c823be7ca6d7682cd91f57b1b921d014218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 20/28] fix: sigma_type 'bound' multiplied its clipping bound
 by the standard deviation

The documented bounds are mean - sigma and mean + sigma, with sigma a value.
---
 petrofit/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 40f4b5f..88e488f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -660,8 +660,8 @@ def source_photometry(
                     )
 
                     fit_bg_image = masked_stats_image
-                    fit_bg_image[np.where(fit_bg_image > mean + std * sigma)] = np.nan
-                    fit_bg_image[np.where(fit_bg_image < mean - std * sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
                     raise (
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
-- 
2.43.0


From e394960c0973ef5a9e45987c1a7f6d2f29d12f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 21/28] fix: natural_sort failed for numbers

---
 petrofit/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index d532fd2..abb92e1 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -34,6 +34,9 @@ def natural_sort(l):
     """Sort the given list of strings or numbers without needing leading zeros"""
     convert = lambda text: int(text) if text.isdigit() else text.lower()
     alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", key)]
+    if any(not isinstance(item, str) for item in l):
+        # Plain numbers sort by value
+        return sorted(l)
     return sorted(l, key=alphanum_key)
 
 
-- 
2.43.0


From a721d8593b873c9c9e8dee95ea124f1c69cb3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 22/28] fix: plot_cog failed for area errors without flux
 errors

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8df07ba..daca676 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1145,7 +1145,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From e1755d6dcadb349ba693cc9990df355c75d4d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 23/28] fix: fraction_to_r raised for negative errors of the
 Petrosian radius

---
 petrofit/petrosian/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index daca676..acc26d5 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -335,8 +335,13 @@ def fraction_to_r(
     )
 
     # The 1-sigma range of r_epsilon can extend past the measured radii
-    fractional_flux_err_lower = f_lower(max(r_epsilon - r_epsilon_err, min(r_list)))
-    fractional_flux_err_upper = f_upper(min(r_epsilon + r_epsilon_err, max(r_list)))
+    r_min, r_max = min(r_list), max(r_list)
+    fractional_flux_err_lower = f_lower(
+        np.clip(r_epsilon - r_epsilon_err, r_min, r_max)
+    )
+    fractional_flux_err_upper = f_upper(
+        np.clip(r_epsilon + r_epsilon_err, r_min, r_max)
+    )
 
     fractional_flux_err = (fractional_flux_err_upper - fractional_flux_err_lower) / 2.0
 
-- 
2.43.0


From f455de146c60e7337c702e277e40d3b7a4269609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 24/28] fix: unequal pixel scales of a few mas were accepted

np.allclose's absolute tolerance (1e-8 degrees) is comparable to typical
pixel scales, so clearly unequal scales passed.
---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index abb92e1..6e370c4 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -88,7 +88,7 @@ def match_catalogs(ra_1, dec_1, ra_2, dec_2, unit="deg"):
 def angular_to_pixel(angular_diameter, wcs):
     """Convert angular angular diameter to pixel width using wcs"""
     pixel_scales = proj_plane_pixel_scales(wcs)
-    assert np.allclose(*pixel_scales)
+    assert np.allclose(*pixel_scales, atol=0)
     pixel_scale = pixel_scales[0] * wcs.wcs.cunit[0] / u.pix
 
     pixel_size = angular_diameter / pixel_scale.to(angular_diameter.unit / u.pix)
@@ -100,7 +100,7 @@ def angular_to_pixel(angular_diameter, wcs):
 def pixel_to_angular(pixel_size, wcs):
     """Convert angular pixel width to angular diameter using wcs"""
     pixel_scales = proj_plane_pixel_scales(wcs)
-    assert np.allclose(*pixel_scales)
+    assert np.allclose(*pixel_scales, atol=0)
     pixel_scale = pixel_scales[0] * wcs.wcs.cunit[0] / u.pix
 
     if not hasattr(pixel_size, "unit"):
-- 
2.43.0


From 409d9a0c9c5571480cb38037e15f4fc8c5736f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 25/28] fix: natural_sort failed for strings with superscript
 digits

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 6e370c4..2d68a05 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -32,7 +32,7 @@ __all__ = [
 
 def natural_sort(l):
     """Sort the given list of strings or numbers without needing leading zeros"""
-    convert = lambda text: int(text) if text.isdigit() else text.lower()
+    convert = lambda text: int(text) if re.fullmatch("[0-9]+", text) else text.lower()
     alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", key)]
     if any(not isinstance(item, str) for item in l):
         # Plain numbers sort by value
-- 
2.43.0


From e383028d1ff99d52b053bc8da0735daeeec5213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 26/28] fix: Petrosian plots set the ticks of the axes they
 draw on, not of the current axes

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index acc26d5..c45a366 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1066,7 +1066,7 @@ class Petrosian:
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         if show_legend:
@@ -1209,7 +1209,7 @@ class Petrosian:
             fontsize=ax_fontsize,
         )
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         ax.set_ylim(0, None)
-- 
2.43.0


From e80884d92e14046e88f2074ef0682e7a85466801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 27/28] fix: plotting a Petrosian profile does not fail when
 the radius error is negative

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index c45a366..91889eb 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1046,7 +1046,7 @@ class Petrosian:
                     ax.errorbar(
                         r_petrosian,
                         self.eta,
-                        xerr=r_petrosian_err,
+                        xerr=np.abs(r_petrosian_err),
                         zorder=6,
                         marker="o",
                         capsize=5,
-- 
2.43.0


From 2058c4fe5946e957e6451420966678d7316aada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 28/28] fix: Petrosian plots label the radius axis when no
 radius unit is given

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 91889eb..fd60c44 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1061,7 +1061,7 @@ class Petrosian:
         ax.axhline(0, c="black")
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
@@ -1201,7 +1201,7 @@ class Petrosian:
 
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(
-- 
2.43.0

