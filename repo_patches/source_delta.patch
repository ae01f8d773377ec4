From 5a94f57585a5c22ed45f2d30658606671ae94503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 01/18] fix: keep annular aperture OTF finite and continuous at
 the inner region edge

---
 src/pybsm/otf/functional.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..fd10ebc 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -160,8 +160,10 @@ def circular_aperture_OTF(  # noqa: N802
     # region where (rho < ((1.0-eta)*r0/2.0)):
     c_1 = -2.0 * eta**2.0 * (rho < (1.0 - eta) * r0 / 2.0)  # noqa: N806
 
-    # region where (rho <= ((1.0+eta)*r0/2.0)):
-    phi = np.arccos((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta)
+    # region where ((1.0-eta)*r0/2.0) <= rho <= ((1.0+eta)*r0/2.0):
+    # clip so that rounding at the region edges cannot leave the arccos domain
+    cos_phi = (1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta
+    phi = np.arccos(np.clip(cos_phi, -1.0, 1.0))
     c_2 = (  # noqa: N806
         2.0 * eta * np.sin(phi) / np.pi
         + (1.0 + eta**2.0) * phi / np.pi
@@ -171,7 +173,9 @@ def circular_aperture_OTF(  # noqa: N802
         (1.0 + eta) * np.tan(phi / 2.0) / (1.0 - eta)
     )
     c_2 = np.nan_to_num(c_2)  # noqa: N806
-    c_2 = c_2 * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806
+    c_2 = c_2 * (  # noqa: N806
+        (rho >= (1.0 - eta) * r0 / 2.0) & (rho <= (1.0 + eta) * r0 / 2.0)
+    )
 
     # note that c_1+c_2 = C from the IBSM documentation
 
-- 
2.43.0


From 7e9e88a9231bbb676cf031e59eb38005adb71c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 02/18] fix: evaluate Hopkins' defocused-aperture series as
 published

---
 src/pybsm/otf/functional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index fd10ebc..7fb6e97 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -238,16 +238,16 @@ def circular_aperture_OTF_with_defocus(  # noqa: N802
     beta = np.arccos(0.5 * s)
 
     if defocus:
-        defocus_otf = 2 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
+        defocus_otf = 4 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
             beta * jn(1, alpha)
-            + 1 / 2.0 * np.sin(2 * beta * (jn(1, alpha) - jn(3, alpha)))
-            - 1 / 4.0 * np.sin(4 * beta * (jn(3, alpha) - jn(5, alpha)))
-            + 1 / 6.0 * np.sin(6 * beta * (jn(5, alpha) - jn(7, alpha)))
-        ) - 2 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
-            np.sin(beta * (jn(0, alpha) - jn(2, alpha)))
-            - 1 / 3.0 * np.sin(3 * beta * (jn(2, alpha) - jn(4, alpha)))
-            + 1 / 5.0 * np.sin(5 * beta * (jn(4, alpha) - jn(6, alpha)))
-            - 1 / 7.0 * np.sin(7 * beta * (jn(6, alpha) - jn(8, alpha)))
+            + 1 / 2.0 * np.sin(2 * beta) * (jn(1, alpha) - jn(3, alpha))
+            - 1 / 4.0 * np.sin(4 * beta) * (jn(3, alpha) - jn(5, alpha))
+            + 1 / 6.0 * np.sin(6 * beta) * (jn(5, alpha) - jn(7, alpha))
+        ) - 4 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
+            np.sin(beta) * (jn(0, alpha) - jn(2, alpha))
+            - 1 / 3.0 * np.sin(3 * beta) * (jn(2, alpha) - jn(4, alpha))
+            + 1 / 5.0 * np.sin(5 * beta) * (jn(4, alpha) - jn(6, alpha))
+            - 1 / 7.0 * np.sin(7 * beta) * (jn(6, alpha) - jn(8, alpha))
         )
 
         defocus_otf[rho == 0] = 1
-- 
2.43.0


From c63d6e2010a3e64b1e1985bbc888928b8dc3d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 03/18] fix: keep slant-path geometry finite for vertical and
 short lines of sight

The law of cosines cancelled the Earth's radius, so rounding put the cosine
of the nadir angle above one for about half of all straight-down looks and
nadir_angle and altitude_along_slant_path returned NaN.
---
 src/pybsm/geospatial.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 82399cb..e09d266 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -126,7 +126,12 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     a = r_earth + h_sensor
     b = slant_range
     c = r_earth + h_target
-    nadir = np.arccos(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b))
+    cos_nadir = (b**2.0 + (h_sensor - h_target) * (a + c)) / (2.0 * a * b)
+    # rounding must not push a vertical line of sight out of the arccos domain
+    cos_nadir = np.where(
+        np.abs(cos_nadir) < 1.0 + 1e-9, np.clip(cos_nadir, -1.0, 1.0), cos_nadir
+    )
+    nadir = np.arccos(cos_nadir)
 
     return nadir
 
@@ -150,6 +155,9 @@ def curved_earth_slant_range(
     a = r_earth + h_sensor
     c = r_earth + h_target
     theta = ground_range / r_earth  # exact arc length angle (easy to derive)
-    slant_range = np.sqrt(c**2.0 + a**2.0 - 2.0 * a * c * np.cos(theta))
+    # law of cosines, arranged so that the Earth's radius does not cancel
+    slant_range = np.sqrt(
+        (h_sensor - h_target) ** 2.0 + 4.0 * a * c * np.sin(theta / 2.0) ** 2.0
+    )
 
     return slant_range
-- 
2.43.0


From 39db0dddb9f6c94c6f83f0ec3b6696d9d29fd15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 04/18] fix: interpolate atmospheres against the database's
 32.5 m altitude

The database holds 32.5 m, not 32.55 m, so every altitude between 2 m and
75 m failed with an IndexError.
---
 src/pybsm/simulation/scenario.py | 2 +-
 src/pybsm/utils.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/simulation/scenario.py b/src/pybsm/simulation/scenario.py
index b5c7617..f431802 100644
--- a/src/pybsm/simulation/scenario.py
+++ b/src/pybsm/simulation/scenario.py
@@ -35,7 +35,7 @@ class Scenario:
         with 5 km visibility)
     :parameter altitude:
         sensor height above ground level in meters; the database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500
     :parameter ground_range:
diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..3169096 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -44,7 +44,7 @@ def load_database_atmosphere_no_interp(
 
     :param altitude:
         sensor height above ground level in meters.  The database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500 meters
     :param ground_range:
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From 81456d826bbada4a1b07dfd3bda254741456729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 05/18] fix: accept kernels that sum to one up to rounding in
 noise_gain

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1c15e28..1cabcf2 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -53,7 +53,7 @@ def noise_gain(kernel: np.ndarray) -> float:
         ValueError:
             if values in kernel do not sum to 1
     """
-    if np.sum(kernel) != 1.0:
+    if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
     ng = np.sqrt(np.sum(np.sum(kernel**2)))
-- 
2.43.0


From 1a31f8e69a5fe05b882f9bb9b01d4cf3b3eb6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 06/18] fix: default w_y to the fill factor of the x direction

---
 src/pybsm/simulation/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/sensor.py b/src/pybsm/simulation/sensor.py
index e54c823..2de5f18 100644
--- a/src/pybsm/simulation/sensor.py
+++ b/src/pybsm/simulation/sensor.py
@@ -191,7 +191,7 @@ class Sensor:
 
         if w_y is None:
             # Assume is same fill factor as along the x.
-            self.w_y = p_x / self.w_x * self.p_y
+            self.w_y = self.w_x / p_x * self.p_y
         else:
             self.w_y = w_y
 
-- 
2.43.0


From 0de04edc7c430447ba631d180d709e425d9e9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 07/18] fix: use the requested target temperature in
 reflectance_to_photoelectrons

---
 src/pybsm/radiance/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..c0b564f 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -584,7 +584,7 @@ def reflectance_to_photoelectrons(
         # Calculate the total radiance from the target including both
         # reflection of the solar illumination and the radiative emission from
         # the object assumed to be at 300 K.
-        target_radiance = total_radiance(atm, ref[idx], 300.0)
+        target_radiance = total_radiance(atm, ref[idx], target_temp)
 
         wavelengths = atm[:, 0]
 
-- 
2.43.0


From 6e258875c95e3f8e43a2452f34a1f0420d9755e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 08/18] fix: record the background temperature in the infrared
 NIIRS bookkeeping

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a699df1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -314,7 +314,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -475,7 +475,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From 00bbe9e7ab4570bc1033c1b2039eef072f65ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 09/18] fix: leave the caller's filter kernel alone in niirs5

---
 src/pybsm/metrics/functional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a699df1..0489d4d 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -551,9 +552,10 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    unsharpened = copy.copy(sensor)  # the caller's sensor keeps its kernel
+    unsharpened.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        unsharpened,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From eb673263d7f0c45e0187716f0f1d2e0c65109a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 10/18] fix: apply single-row filter kernels in common_OTFs

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 7fb6e97..afa2bba 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1403,7 +1403,7 @@ def common_OTFs(  # noqa: N802
     otf.wav_OTF = weighted_by_wavelength(mtf_wavelengths, mtf_weights, wav_function)
 
     # filter OTF (e.g. a sharpening filter but it could be anything)
-    if sensor.filter_kernel.shape[0] > 1:
+    if sensor.filter_kernel.size > 1:
         # note that we're assuming equal ifovs in the x and y directions
         otf.filter_OTF = filter_OTF(uu, vv, sensor.filter_kernel, sensor.p_x / sensor.f)
     else:
-- 
2.43.0


From 607e7483d19cf0eaeebd1c10e52ca889f4705012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 11/18] fix: pair the slice coordinates in slice_otf

interp2d sorts its query coordinates, so slices outside the first quadrant
mixed up the samples, and the axes of a non-square OTF were exchanged.
---
 src/pybsm/otf/functional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index afa2bba..d663be6 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1175,15 +1175,15 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
             one-dimensional OTF in the direction of angle; the sample spacing
             of o_slice is the same as the original otf
     """
-    u = np.linspace(-1.0, 1.0, otf.shape[0])
-    v = np.linspace(1.0, -1.0, otf.shape[1])
+    u = np.linspace(-1.0, 1.0, otf.shape[1])
+    v = np.linspace(1.0, -1.0, otf.shape[0])
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
-    f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
-    # the interpolator, f, calculates a bunch of points that we don't really
-    # need since everything but the diagonal is thrown away.  It works but
-    # it's inefficient.
+    # rows of the otf run along v (from +1 to -1), columns along u
+    f = interpolate.RegularGridInterpolator(
+        (v[::-1], u), otf[::-1], bounds_error=False, fill_value=None
+    )
+    o_slice = f(np.column_stack((r * np.sin(ang), r * np.cos(ang))))
 
     return o_slice
 
-- 
2.43.0


From 4752d4b1bc16fd04003454ae7f3b53f371f42ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 12/18] fix: make otf_to_psf work for small and odd-sized OTFs

OTFs of at most 10 samples raised UnboundLocalError, psfs smaller than the
crop window were cropped from a negative index, and odd sizes were shifted
by one frequency sample before the transform.
---
 src/pybsm/otf/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index d663be6..1c8028a 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -935,7 +935,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     # transform the psf
-    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.fftshift(otf))))
+    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
     dx_in = 1 / (otf.shape[0] * df)
@@ -953,7 +953,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
         tuple(
             [
                 slice(
-                    int(np.floor(d / 2 - k_size / 2)),
+                    max(0, int(np.floor(d / 2 - k_size / 2))),
                     int(np.ceil(d / 2 + k_size / 2)),
                 )
                 for d in x.shape
@@ -962,6 +962,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     ]
 
     # find the support region of the blur kernel
+    psf_out = psf
     for ii in np.arange(10, np.min(otf.shape), 5):
         psf_out = get_middle(psf, ii)
         if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
-- 
2.43.0


From 81d61297a07642609b6c9a51eeb37dd6c841d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 13/18] fix: define the contrast stretch of images without
 spread

---
 src/pybsm/simulation/functional.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 089da12..37c8354 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -273,6 +273,11 @@ def stretch_contrast_convert_8bit(
         perc = [0.1, 99.9]
     img = img.astype(float)
     img = img - np.percentile(img.ravel(), perc[0])
-    img = img / (np.percentile(img.ravel(), perc[1]) / 255)
+    scale = np.percentile(img.ravel(), perc[1]) / 255
+    if scale > 0:
+        img = img / scale
+    else:
+        # no spread between the percentiles: only outliers stand out
+        img = np.where(img > 0, 255.0, 0.0)
     img = np.clip(img, 0, 255)
     return np.round(img).astype(np.uint8)
-- 
2.43.0


From 1e11fafdbe69cd2e21c1713993990ed83243a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:02 +0000
Subject: [PATCH 14/18] fix: convolve with the psf in apply_otf_to_image

cv2.filter2D correlates, so complex OTFs moved the image against their phase.
---
 src/pybsm/otf/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 1c8028a..dbcb2f1 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1289,8 +1289,9 @@ def apply_otf_to_image(
         )
     psf = otf_to_psf(otf, df, 2 * np.arctan(ref_gsd / 2 / ref_range))
 
-    # filter the image
-    blur_img = cv2.filter2D(ref_img, -1, psf)
+    # filter the image (filter2D correlates, so flip the psf about its center)
+    anchor = ((psf.shape[1] - 1) // 2, (psf.shape[0] - 1) // 2)
+    blur_img = cv2.filter2D(ref_img, -1, psf[::-1, ::-1], anchor=anchor)
 
     # resample the image to the camera's ifov
     sim_img = resample_2D(blur_img, ref_gsd / ref_range, ifov)
-- 
2.43.0


From 68b108b126be1e727bbb0da0f172fc622a13d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:52 +0000
Subject: [PATCH 15/18] fix: otf_to_psf keeps at least 95% of the kernel's
 energy when it is upsampled or wide

---
 src/pybsm/otf/functional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index dbcb2f1..6971275 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -963,9 +963,10 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
 
     # find the support region of the blur kernel
     psf_out = psf
-    for ii in np.arange(10, np.min(otf.shape), 5):
-        psf_out = get_middle(psf, ii)
-        if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
+    for ii in np.arange(10, np.min(psf.shape), 5):
+        cropped = get_middle(psf, ii)
+        if cropped.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
+            psf_out = cropped
             break
 
     # make up for cropped out portions of the psf
-- 
2.43.0


From 08589ef1a7558186094d446bf1f012c36e71519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:32 +0000
Subject: [PATCH 16/18] fix: plot_common_MTFs annotates the Nyquist frequency
 with arguments matplotlib accepts

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 0489d4d..3ca2bb4 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -745,8 +745,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From 156ecc2836cae7272143e03cf2ea902166a4c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:10 +0000
Subject: [PATCH 17/18] fix: otf_to_psf takes the sample spacing of each axis
 from that axis

---
 src/pybsm/otf/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 6971275..87d1185 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -938,11 +938,12 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
-    dx_in = 1 / (otf.shape[0] * df)
+    dx_in = 1 / (otf.shape[1] * df)
+    dy_in = 1 / (otf.shape[0] * df)
 
     # resample to the desired sample size
     new_x = max([1, int(psf.shape[1] * dx_in / dx_out)])
-    new_y = max([1, int(psf.shape[0] * dx_in / dx_out)])
+    new_y = max([1, int(psf.shape[0] * dy_in / dx_out)])
     psf = cv2.resize(psf, (new_x, new_y)).astype(np.float64)
 
     # ensure that the psf sums to 1
-- 
2.43.0


From c981c9574788aab9947c657e24e86e39cf0cc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:30 +0000
Subject: [PATCH 18/18] fix: ground_resolved_distance stops where the MTF first
 falls to the threshold, also when the MTF rises again

---
 src/pybsm/metrics/functional.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 3ca2bb4..9bf8ce7 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -266,8 +266,13 @@ def ground_resolved_distance(mtf_slice: np.ndarray, df: float, snr: float, ifov:
             ground resolved distance (m)
     """
     w = df * np.arange(1.0 * mtf_slice.size)
+    # np.interp needs increasing values, and the MTF may rise again past the first sample that is at or below the
+    # threshold (side lobes, sharpening), so only the interval that ends at that sample is searched
+    below = np.flatnonzero(mtf_slice <= 3.0 / snr)
+    last = below[0] + 1 if below.size else mtf_slice.size
+    near = slice(max(last - 2, 0), last)
     u_r = (
-        np.interp(3.0 / snr, mtf_slice[::-1], w[::-1]) + 1e-12  # 1e-12 prevents division by zero in grd_cases
+        np.interp(3.0 / snr, mtf_slice[near][::-1], w[near][::-1]) + 1e-12  # prevents division by zero in grd_cases
     )  # arrays were reversed to satisfy the requirements of np.interp
 
     grd_cases = slant_range * np.array([1.0 / u_r, 2.0 * ifov])
-- 
2.43.0

