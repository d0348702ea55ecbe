From 5a4d4290e27c8ce4b93d7095111172d8e35a5e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 01/14] fix: default detector height uses the x fill factor,
 not its inverse

---
 src/pybsm/simulation/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/sensor.py b/src/pybsm/simulation/sensor.py
index e54c823..2de5f18 100644
--- a/src/pybsm/simulation/sensor.py
+++ b/src/pybsm/simulation/sensor.py
@@ -191,7 +191,7 @@ class Sensor:
 
         if w_y is None:
             # Assume is same fill factor as along the x.
-            self.w_y = p_x / self.w_x * self.p_y
+            self.w_y = self.w_x / p_x * self.p_y
         else:
             self.w_y = w_y
 
-- 
2.43.0


From 6d82594406a756bc4dd9bb0130f35887d3f0e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 02/14] fix: reflectance_to_photoelectrons honours target_temp

---
 src/pybsm/radiance/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..c0b564f 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -584,7 +584,7 @@ def reflectance_to_photoelectrons(
         # Calculate the total radiance from the target including both
         # reflection of the solar illumination and the radiative emission from
         # the object assumed to be at 300 K.
-        target_radiance = total_radiance(atm, ref[idx], 300.0)
+        target_radiance = total_radiance(atm, ref[idx], target_temp)
 
         wavelengths = atm[:, 0]
 
-- 
2.43.0


From 8bb9376a4d114b34a490cff0527db7deb48bc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 03/14] fix: emissive NIIRS bookkeeping records the background
 temperature

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a699df1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -314,7 +314,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -475,7 +475,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From 848cff8e7ab79667675e88fc1ee7fd9a92869afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 04/14] fix: niirs5 no longer removes the sharpening kernel
 from the caller's sensor

---
 src/pybsm/metrics/functional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a699df1..a68fa58 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -551,9 +552,10 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    otf_sensor = copy.copy(sensor)
+    otf_sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        otf_sensor,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From fed89c4104b3eda678ac28b7f0b9fd6e4fc209f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 05/14] fix: plot_common_MTFs passes annotate its real argument
 names

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a68fa58..448717d 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -745,8 +745,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From 74c41a351b2b3491add8517dcb81ae815c6bbe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 06/14] fix: otf_to_psf keeps the whole PSF when it is smaller
 than the crop window

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..8eda8a7 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -949,7 +949,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
         tuple(
             [
                 slice(
-                    int(np.floor(d / 2 - k_size / 2)),
+                    max(0, int(np.floor(d / 2 - k_size / 2))),
                     int(np.ceil(d / 2 + k_size / 2)),
                 )
                 for d in x.shape
-- 
2.43.0


From 089e0b7e55e0c9da25a347c4b30f1c36b16ac014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 07/14] fix: slice_otf is correct for angles outside the first
 quadrant

---
 src/pybsm/otf/functional.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 8eda8a7..8e768c9 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1176,10 +1176,9 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
     f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
-    # the interpolator, f, calculates a bunch of points that we don't really
-    # need since everything but the diagonal is thrown away.  It works but
-    # it's inefficient.
+    # the interpolator, f, sorts its arguments, so the points are evaluated one
+    # by one (sorting would reverse the radial axis for angles beyond pi/2)
+    o_slice = np.array([f(x, y)[0] for x, y in zip(r * np.cos(ang), r * np.sin(ang))])
 
     return o_slice
 
-- 
2.43.0


From 3443c203a5ddb9f31d26ed3e02bbea2ebda0cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 08/14] fix: defocused aperture OTF follows Hopkins (tends to
 the in-focus OTF)

---
 src/pybsm/otf/functional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 8e768c9..0ea4760 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -234,16 +234,16 @@ def circular_aperture_OTF_with_defocus(  # noqa: N802
     beta = np.arccos(0.5 * s)
 
     if defocus:
-        defocus_otf = 2 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
+        defocus_otf = 4 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
             beta * jn(1, alpha)
-            + 1 / 2.0 * np.sin(2 * beta * (jn(1, alpha) - jn(3, alpha)))
-            - 1 / 4.0 * np.sin(4 * beta * (jn(3, alpha) - jn(5, alpha)))
-            + 1 / 6.0 * np.sin(6 * beta * (jn(5, alpha) - jn(7, alpha)))
-        ) - 2 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
-            np.sin(beta * (jn(0, alpha) - jn(2, alpha)))
-            - 1 / 3.0 * np.sin(3 * beta * (jn(2, alpha) - jn(4, alpha)))
-            + 1 / 5.0 * np.sin(5 * beta * (jn(4, alpha) - jn(6, alpha)))
-            - 1 / 7.0 * np.sin(7 * beta * (jn(6, alpha) - jn(8, alpha)))
+            + 1 / 2.0 * np.sin(2 * beta) * (jn(1, alpha) - jn(3, alpha))
+            - 1 / 4.0 * np.sin(4 * beta) * (jn(3, alpha) - jn(5, alpha))
+            + 1 / 6.0 * np.sin(6 * beta) * (jn(5, alpha) - jn(7, alpha))
+        ) - 4 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
+            np.sin(beta) * (jn(0, alpha) - jn(2, alpha))
+            - 1 / 3.0 * np.sin(3 * beta) * (jn(2, alpha) - jn(4, alpha))
+            + 1 / 5.0 * np.sin(5 * beta) * (jn(4, alpha) - jn(6, alpha))
+            - 1 / 7.0 * np.sin(7 * beta) * (jn(6, alpha) - jn(8, alpha))
         )
 
         defocus_otf[rho == 0] = 1
-- 
2.43.0


From 2e7aedbb0974f38e16331134ad28689fe1e48ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 09/14] fix: interpolated atmospheres between 2 and 75 m use
 the stored 32.5 m records

The database stores 0.0325 km (atmosphere_README.txt, fileDecoder.csv), but the
interpolation grid said 32.55 m, so every altitude between 2 m and 75 m was
refused with an IndexError.
---
 src/pybsm/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..3169096 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -44,7 +44,7 @@ def load_database_atmosphere_no_interp(
 
     :param altitude:
         sensor height above ground level in meters.  The database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500 meters
     :param ground_range:
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From 361a77f9f023d8aeeae9968edd109e1e0e62518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:31 +0000
Subject: [PATCH 10/14] fix: nadir_angle is not NaN when the line of sight is
 vertical

For half of all altitudes seen from right above, rounding left the cosine just
above one and the angle, altitude profile, turbulence OTF and NIIRS were NaN.
---
 src/pybsm/geospatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 82399cb..cf985b1 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -126,7 +126,9 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     a = r_earth + h_sensor
     b = slant_range
     c = r_earth + h_target
-    nadir = np.arccos(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b))
+    # rounding can leave the cosine just outside [-1, 1] when the line of sight is vertical
+    cos_nadir = np.clip(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b), -1.0, 1.0)
+    nadir = np.arccos(cos_nadir)
 
     return nadir
 
-- 
2.43.0


From 4009a5b68d9a9b969c592c6ad825396c8b68487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 11/14] fix: centre the transform of odd-sized OTFs in
 otf_to_psf

fftshift moves the centre of an odd-sized array next to the origin instead of
onto it, which multiplied the point spread function by a cosine (ifftshift is
the same for even sizes).
---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0ea4760..26ed69f 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -931,7 +931,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     # transform the psf
-    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.fftshift(otf))))
+    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
     dx_in = 1 / (otf.shape[0] * df)
-- 
2.43.0


From b9c714c88ba94ba975f2f4597624fc47c848623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:36 +0000
Subject: [PATCH 12/14] fix: obscured aperture OTF is continuous where the
 obscuration images part

At the frequency (1-eta)/2 D/lambda rounding made both or neither of the two
branches of the C term apply, moving the OTF by 2 eta^2/(1-eta^2).
---
 src/pybsm/otf/functional.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 26ed69f..dc3d147 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -157,26 +157,23 @@ def circular_aperture_OTF(  # noqa: N802
     )
     b = np.nan_to_num(b)  # noqa: N806
 
-    # region where (rho < ((1.0-eta)*r0/2.0)):
-    c_1 = -2.0 * eta**2.0 * (rho < (1.0 - eta) * r0 / 2.0)  # noqa: N806
-
-    # region where (rho <= ((1.0+eta)*r0/2.0)):
-    phi = np.arccos((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta)
-    c_2 = (  # noqa: N806
+    # region where (rho <= ((1.0+eta)*r0/2.0)); phi is 0, and c = -2.0*eta**2.0, up to (1.0-eta)*r0/2.0:
+    phi = np.arccos(np.clip((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta, -1.0, 1.0))
+    c = (  # noqa: N806
         2.0 * eta * np.sin(phi) / np.pi
         + (1.0 + eta**2.0) * phi / np.pi
         - 2.0 * eta**2.0
     )
-    c_2 = c_2 - (2.0 * (1.0 - eta**2.0) / np.pi) * np.arctan(  # noqa: N806
+    c = c - (2.0 * (1.0 - eta**2.0) / np.pi) * np.arctan(  # noqa: N806
         (1.0 + eta) * np.tan(phi / 2.0) / (1.0 - eta)
     )
-    c_2 = np.nan_to_num(c_2)  # noqa: N806
-    c_2 = c_2 * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806
+    c = np.nan_to_num(c)  # noqa: N806
+    c = c * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806
 
-    # note that c_1+c_2 = C from the IBSM documentation
+    # note that c = C from the IBSM documentation
 
     if eta > 0.0:
-        H = (a + b + c_1 + c_2) / (1.0 - eta**2.0)  # noqa: N806
+        H = (a + b + c) / (1.0 - eta**2.0)  # noqa: N806
     else:
         H = a  # noqa: N806
     return H
-- 
2.43.0


From ff717376dcd7a396f872c5f3077a7f1f5f6b1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 13/14] fix: GIQE 4 noise coefficient is 0.344 (Leachtenauer et
 al. 1997)

---
 src/pybsm/metrics/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 448717d..57eb0b1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -117,7 +117,7 @@ def giqe4(rer: float, gsd: float, eho: float, ng: float, snr: float, elev_angle:
     # fact that only one direction in the gsd is distorted by projection into
     # the ground plane
 
-    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.334 * ng / snr
+    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr
     # note that, within the GIQE, gsd is defined in inches, hence the
     # conversion
     return niirs, gsd_gp
-- 
2.43.0


From ef988b737e6003876cce4c5a1a399ee9bc511269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:58 +0000
Subject: [PATCH 14/14] fix: single-row filter kernels are part of the system
 OTF

common_OTFs took a kernel for absent when its first dimension was one, so a
1 x N sharpening or blurring kernel counted in the noise gain but not in the
system OTF.
---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index dc3d147..c173316 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1395,7 +1395,7 @@ def common_OTFs(  # noqa: N802
     otf.wav_OTF = weighted_by_wavelength(mtf_wavelengths, mtf_weights, wav_function)
 
     # filter OTF (e.g. a sharpening filter but it could be anything)
-    if sensor.filter_kernel.shape[0] > 1:
+    if sensor.filter_kernel.size > 1:
         # note that we're assuming equal ifovs in the x and y directions
         otf.filter_OTF = filter_OTF(uu, vv, sensor.filter_kernel, sensor.p_x / sensor.f)
     else:
-- 
2.43.0

