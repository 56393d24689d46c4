From 7d7a03f2b4425a737eba4bf01b92c29834e463eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 01/24] fix: nadir angle is NaN when rounding pushes its cosine
 past 1 (vertical views)

---
 src/pybsm/geospatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 82399cb..d5804c5 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -126,7 +126,9 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     a = r_earth + h_sensor
     b = slant_range
     c = r_earth + h_target
-    nadir = np.arccos(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b))
+    # rounding can push the cosine just past 1 when looking straight down
+    cos_nadir = np.clip(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b), -1.0, 1.0)
+    nadir = np.arccos(cos_nadir)
 
     return nadir
 
-- 
2.43.0


From c17a3f68126c7953f9933e7afce604954f18c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:28 +0000
Subject: [PATCH 02/24] fix: slice_otf returns the wrong samples for angles
 outside the first quadrant

---
 src/pybsm/otf/functional.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..e853365 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1175,11 +1175,10 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
     v = np.linspace(1.0, -1.0, otf.shape[1])
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
-    f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
-    # the interpolator, f, calculates a bunch of points that we don't really
-    # need since everything but the diagonal is thrown away.  It works but
-    # it's inefficient.
+    # bilinear interpolation, evaluated point by point along the slice (v is
+    # flipped because the interpolator needs increasing coordinates)
+    f = interpolate.RectBivariateSpline(v[::-1], u, otf[::-1], kx=1, ky=1)
+    o_slice = f.ev(r * np.sin(ang), r * np.cos(ang))
 
     return o_slice
 
-- 
2.43.0


From 5d4bade5831635e87d2c2e5ec1380998592e6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 03/24] fix: noise_gain rejects kernels whose sum differs from
 1 only by rounding

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1c15e28..1cabcf2 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -53,7 +53,7 @@ def noise_gain(kernel: np.ndarray) -> float:
         ValueError:
             if values in kernel do not sum to 1
     """
-    if np.sum(kernel) != 1.0:
+    if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
     ng = np.sqrt(np.sum(np.sum(kernel**2)))
-- 
2.43.0


From 4b4fffed74b1bd8ae97e4c4a3843d5a6266a7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 04/24] fix: interpolated atmospheres between 2 m and 75 m
 looked up 32.55 m instead of 32.5 m

---
 src/pybsm/simulation/scenario.py | 2 +-
 src/pybsm/utils.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/simulation/scenario.py b/src/pybsm/simulation/scenario.py
index b5c7617..f431802 100644
--- a/src/pybsm/simulation/scenario.py
+++ b/src/pybsm/simulation/scenario.py
@@ -35,7 +35,7 @@ class Scenario:
         with 5 km visibility)
     :parameter altitude:
         sensor height above ground level in meters; the database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500
     :parameter ground_range:
diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..3169096 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -44,7 +44,7 @@ def load_database_atmosphere_no_interp(
 
     :param altitude:
         sensor height above ground level in meters.  The database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500 meters
     :param ground_range:
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From bc40285c5c67ca4d49813f49f874b9d86b058d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 05/24] fix: default detector height used the inverse of the
 fill factor along x

---
 src/pybsm/simulation/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/sensor.py b/src/pybsm/simulation/sensor.py
index e54c823..2de5f18 100644
--- a/src/pybsm/simulation/sensor.py
+++ b/src/pybsm/simulation/sensor.py
@@ -191,7 +191,7 @@ class Sensor:
 
         if w_y is None:
             # Assume is same fill factor as along the x.
-            self.w_y = p_x / self.w_x * self.p_y
+            self.w_y = self.w_x / p_x * self.p_y
         else:
             self.w_y = w_y
 
-- 
2.43.0


From 78afa177534fb41070dee48c2ce369af533855fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 06/24] fix: plot_common_MTFs always failed on misspelt
 annotate arguments

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a932255 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -743,8 +743,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From 0922128864414480ff8888b4634142b84e025614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 07/24] fix: one-row filter kernels were left out of the system
 OTF

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index e853365..f9408d1 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1398,7 +1398,7 @@ def common_OTFs(  # noqa: N802
     otf.wav_OTF = weighted_by_wavelength(mtf_wavelengths, mtf_weights, wav_function)
 
     # filter OTF (e.g. a sharpening filter but it could be anything)
-    if sensor.filter_kernel.shape[0] > 1:
+    if sensor.filter_kernel.size > 1:
         # note that we're assuming equal ifovs in the x and y directions
         otf.filter_OTF = filter_OTF(uu, vv, sensor.filter_kernel, sensor.p_x / sensor.f)
     else:
-- 
2.43.0


From b0cb9af5ab959da2eedaddbd82f12e9305d27ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:57 +0000
Subject: [PATCH 08/24] fix: niirs5 erased the caller's sharpening kernel

---
 src/pybsm/metrics/functional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a932255..8305cd4 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -551,9 +552,10 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    unsharpened_sensor = copy.copy(sensor)  # leave the caller's sensor as it is
+    unsharpened_sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        unsharpened_sensor,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From aeb029343b632b306445282efc168172e27272db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 09/24] fix: emissive-band bookkeeping overwrote the target
 temperature with the background's

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 8305cd4..aa1ebe8 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -315,7 +315,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -476,7 +476,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From 5fa8103fa138fb65c5b70d7d2df34ce88c626bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 10/24] fix: reflectance_to_photoelectrons ignored target_temp

---
 src/pybsm/radiance/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..f52a7a9 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -583,8 +583,8 @@ def reflectance_to_photoelectrons(
     for idx in np.arange(ref.size):
         # Calculate the total radiance from the target including both
         # reflection of the solar illumination and the radiative emission from
-        # the object assumed to be at 300 K.
-        target_radiance = total_radiance(atm, ref[idx], 300.0)
+        # the object at the target temperature.
+        target_radiance = total_radiance(atm, ref[idx], target_temp)
 
         wavelengths = atm[:, 0]
 
-- 
2.43.0


From b154af85430a6fe6cac12ab05fcf9cd4b4ba0d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 11/24] fix: otf_to_psf modulated the PSF of odd-sized OTFs
 (fftshift used where ifftshift is needed)

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index f9408d1..82eda20 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -931,7 +931,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     # transform the psf
-    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.fftshift(otf))))
+    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
     dx_in = 1 / (otf.shape[0] * df)
-- 
2.43.0


From 7a36e81c21b69229876db76949ae8ea3a6d31fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:18 +0000
Subject: [PATCH 12/24] fix: otf_to_psf cropped small PSFs off-centre and
 failed for OTFs up to 10x10

---
 src/pybsm/otf/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 82eda20..1940f45 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -949,7 +949,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
         tuple(
             [
                 slice(
-                    int(np.floor(d / 2 - k_size / 2)),
+                    max(0, int(np.floor(d / 2 - k_size / 2))),
                     int(np.ceil(d / 2 + k_size / 2)),
                 )
                 for d in x.shape
@@ -958,6 +958,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     ]
 
     # find the support region of the blur kernel
+    psf_out = psf
     for ii in np.arange(10, np.min(otf.shape), 5):
         psf_out = get_middle(psf, ii)
         if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
-- 
2.43.0


From 8b817a374a44ccc699f82336dff89563a5648171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 13/24] fix: the sensor's other_irradiance was accepted but
 never used

---
 src/pybsm/radiance/functional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index f52a7a9..85f2a13 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -444,6 +444,7 @@ def photon_detector_SNR(  # noqa: N802
             sensor.D,
             sensor.f,
         )
+        + sensor.other_irradiance
     )
 
     # initial estimate of  total detected target and background photoelectrons
@@ -621,6 +622,7 @@ def reflectance_to_photoelectrons(
             sensor.D,
             sensor.f,
         )
+        other_irradiance = other_irradiance + sensor.other_irradiance
 
         tgt_n_rate, tgt_FPA_irradiance, weights = signal_rate(  # noqa: N806
             wavelengths,
-- 
2.43.0


From 5a10eebe8d07c0d3daabb33028eff7716fd469b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 14/24] fix: stretch_contrast_convert_8bit divided by zero for
 uniform images

---
 src/pybsm/simulation/functional.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 089da12..813de96 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -273,6 +273,8 @@ def stretch_contrast_convert_8bit(
         perc = [0.1, 99.9]
     img = img.astype(float)
     img = img - np.percentile(img.ravel(), perc[0])
-    img = img / (np.percentile(img.ravel(), perc[1]) / 255)
+    scale = np.percentile(img.ravel(), perc[1]) / 255
+    if scale > 0:  # a uniform image has no contrast to stretch
+        img = img / scale
     img = np.clip(img, 0, 255)
     return np.round(img).astype(np.uint8)
-- 
2.43.0


From b72665dfe334313cad33b79ab18273de4ebe9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 15/24] fix: misplaced parentheses and factor in
 circular_aperture_OTF_with_defocus

---
 src/pybsm/otf/functional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 1940f45..149c349 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -234,16 +234,16 @@ def circular_aperture_OTF_with_defocus(  # noqa: N802
     beta = np.arccos(0.5 * s)
 
     if defocus:
-        defocus_otf = 2 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
+        defocus_otf = 4 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
             beta * jn(1, alpha)
-            + 1 / 2.0 * np.sin(2 * beta * (jn(1, alpha) - jn(3, alpha)))
-            - 1 / 4.0 * np.sin(4 * beta * (jn(3, alpha) - jn(5, alpha)))
-            + 1 / 6.0 * np.sin(6 * beta * (jn(5, alpha) - jn(7, alpha)))
-        ) - 2 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
-            np.sin(beta * (jn(0, alpha) - jn(2, alpha)))
-            - 1 / 3.0 * np.sin(3 * beta * (jn(2, alpha) - jn(4, alpha)))
-            + 1 / 5.0 * np.sin(5 * beta * (jn(4, alpha) - jn(6, alpha)))
-            - 1 / 7.0 * np.sin(7 * beta * (jn(6, alpha) - jn(8, alpha)))
+            + 1 / 2.0 * np.sin(2 * beta) * (jn(1, alpha) - jn(3, alpha))
+            - 1 / 4.0 * np.sin(4 * beta) * (jn(3, alpha) - jn(5, alpha))
+            + 1 / 6.0 * np.sin(6 * beta) * (jn(5, alpha) - jn(7, alpha))
+        ) - 4 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
+            np.sin(beta) * (jn(0, alpha) - jn(2, alpha))
+            - 1 / 3.0 * np.sin(3 * beta) * (jn(2, alpha) - jn(4, alpha))
+            + 1 / 5.0 * np.sin(5 * beta) * (jn(4, alpha) - jn(6, alpha))
+            - 1 / 7.0 * np.sin(7 * beta) * (jn(6, alpha) - jn(8, alpha))
         )
 
         defocus_otf[rho == 0] = 1
-- 
2.43.0


From cfc165a8cd34ee510f2c90bf7d05b39abc04b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 16/24] fix: obscured aperture response spiked where rounding
 put a frequency between two regions

---
 src/pybsm/otf/functional.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 149c349..4370a47 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -160,8 +160,11 @@ def circular_aperture_OTF(  # noqa: N802
     # region where (rho < ((1.0-eta)*r0/2.0)):
     c_1 = -2.0 * eta**2.0 * (rho < (1.0 - eta) * r0 / 2.0)  # noqa: N806
 
-    # region where (rho <= ((1.0+eta)*r0/2.0)):
-    phi = np.arccos((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta)
+    # region where ((1.0-eta)*r0/2.0 <= rho <= (1.0+eta)*r0/2.0), rounding can push
+    # the cosine past 1 at the lower end:
+    phi = np.arccos(
+        np.minimum((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta, 1.0)
+    )
     c_2 = (  # noqa: N806
         2.0 * eta * np.sin(phi) / np.pi
         + (1.0 + eta**2.0) * phi / np.pi
@@ -171,7 +174,11 @@ def circular_aperture_OTF(  # noqa: N802
         (1.0 + eta) * np.tan(phi / 2.0) / (1.0 - eta)
     )
     c_2 = np.nan_to_num(c_2)  # noqa: N806
-    c_2 = c_2 * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806
+    c_2 = (
+        c_2
+        * (rho >= (1.0 - eta) * r0 / 2.0)
+        * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806
+    )
 
     # note that c_1+c_2 = C from the IBSM documentation
 
-- 
2.43.0


From 33e1b03c34703c8b3d5678f642efe6c5d7eac560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:49 +0000
Subject: [PATCH 17/24] fix: apply_otf_to_image displaces the image along, not
 against, the phase of a complex OTF

---
 src/pybsm/otf/functional.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 4370a47..0a4cd77 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1289,10 +1289,12 @@ def apply_otf_to_image(
         raise ImportError(
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
-    psf = otf_to_psf(otf, df, 2 * np.arctan(ref_gsd / 2 / ref_range))
+    psf_dx = 2 * np.arctan(ref_gsd / 2 / ref_range)
+    psf = otf_to_psf(otf, df, psf_dx)
 
-    # filter the image
-    blur_img = cv2.filter2D(ref_img, -1, psf)
+    # filter the image (filter2D correlates, so it takes the mirrored kernel,
+    # which is that of the conjugate response, to convolve with psf)
+    blur_img = cv2.filter2D(ref_img, -1, otf_to_psf(np.conj(otf), df, psf_dx))
 
     # resample the image to the camera's ifov
     sim_img = resample_2D(blur_img, ref_gsd / ref_range, ifov)
-- 
2.43.0


From ae33d475fdcbc1ee072e2e73ed54c593b7691cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 18/24] fix: slice_otf drops the imaginary part of a complex
 OTF

---
 src/pybsm/otf/functional.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0a4cd77..05b0600 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1179,6 +1179,9 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
             one-dimensional OTF in the direction of angle; the sample spacing
             of o_slice is the same as the original otf
     """
+    if np.iscomplexobj(otf):  # the interpolator only takes real values
+        return slice_otf(np.real(otf), ang) + 1j * slice_otf(np.imag(otf), ang)
+
     u = np.linspace(-1.0, 1.0, otf.shape[0])
     v = np.linspace(1.0, -1.0, otf.shape[1])
     r = np.arange(0.0, 1.0, u[1] - u[0])
-- 
2.43.0


From 0b25df74d8261d2c812a68c53fca51f11a760cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:58 +0000
Subject: [PATCH 19/24] fix: noise_gain overflows for kernels of a narrow
 integer type

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1cabcf2..435c3b5 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -56,7 +56,7 @@ def noise_gain(kernel: np.ndarray) -> float:
     if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
-    ng = np.sqrt(np.sum(np.sum(kernel**2)))
+    ng = np.sqrt(np.sum(np.sum(np.asarray(kernel, dtype=float) ** 2)))
     return ng
 
 
-- 
2.43.0


From fac2444439830073ff141e808d35f0f1288cdba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:05 +0000
Subject: [PATCH 20/24] fix: otf_to_psf truncates kernels that need more
 samples than the OTF has

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 05b0600..3fd065e 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -966,7 +966,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
 
     # find the support region of the blur kernel
     psf_out = psf
-    for ii in np.arange(10, np.min(otf.shape), 5):
+    for ii in np.arange(10, np.min(psf.shape), 5):
         psf_out = get_middle(psf, ii)
         if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
             break
-- 
2.43.0


From dff0d0f134c7c1eb20c975cfa02340ab7970c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 21/24] fix: otf_to_psf stretches the PSF of an OTF with
 unequal numbers of rows and columns

---
 src/pybsm/otf/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 3fd065e..b766a46 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -941,11 +941,12 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
-    dx_in = 1 / (otf.shape[0] * df)
+    dx_in = 1 / (otf.shape[1] * df)
+    dy_in = 1 / (otf.shape[0] * df)
 
     # resample to the desired sample size
     new_x = max([1, int(psf.shape[1] * dx_in / dx_out)])
-    new_y = max([1, int(psf.shape[0] * dx_in / dx_out)])
+    new_y = max([1, int(psf.shape[0] * dy_in / dx_out)])
     psf = cv2.resize(psf, (new_x, new_y)).astype(np.float64)
 
     # ensure that the psf sums to 1
-- 
2.43.0


From a761b6930d3ba2b7d53d5f679aae641ec3a9f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 22/24] fix: diffusion_OTF overflows for spatial frequencies
 given as whole numbers

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index b766a46..85aabd5 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -463,7 +463,7 @@ def diffusion_OTF(  # noqa: N802
     ) -> float:
         return 1.0 - np.exp(-alpha * ald) / (1.0 + alpha * al)
 
-    rho = np.sqrt(u**2 + v**2)
+    rho = np.sqrt(u**2.0 + v**2.0)
 
     al_rho = np.sqrt((1.0 / al0**2 + (2.0 * np.pi * rho / f) ** 2) ** (-1))
 
-- 
2.43.0


From 2337ba5092a27293f3ef9d77ed618a530a926252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:22 +0000
Subject: [PATCH 23/24] fix: img_to_reflectance answered with NaN for a single
 calibration point instead of the documented ValueError

---
 src/pybsm/simulation/functional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 813de96..ba5b8b1 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -127,6 +127,8 @@ def img_to_reflectance(
     :WARNING:
         Output can be nan if all input arrays have the same values.
     """
+    if np.size(pix_values) < 2 or np.size(refl_values) < 2:
+        raise ValueError("At least two pixel and reflectance values are required.")
     f = interpolate.interp1d(
         pix_values,
         refl_values,
-- 
2.43.0


From 0dba61e522d80176d4c3327160a7c3ca0a67f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 24/24] fix: weighted_by_wavelength broadcasts over the weights
 of wavelengths that occur twice

---
 src/pybsm/otf/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 85aabd5..a5e5236 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1008,8 +1008,9 @@ def weighted_by_wavelength(
     weights = weights / weights.sum()
     weighted_fcn = weights[0] * my_function(wavelengths[0])
 
-    for wii in wavelengths[1:]:
-        weighted_fcn = weighted_fcn + weights[wavelengths == wii] * my_function(wii)
+    for i in range(1, len(wavelengths)):
+        this_one = np.arange(len(wavelengths)) == i  # (wavelengths may repeat)
+        weighted_fcn = weighted_fcn + weights[this_one] * my_function(wavelengths[i])
 
     return weighted_fcn
 
-- 
2.43.0

