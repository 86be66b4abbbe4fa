From d7b21db37a9145a29e23fc986817127cb149c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:11 +0000
Subject: [PATCH 01/58] fix: mask correlation peaks close to the first rows and
 columns

With a peak at less than particle_radius from the top or left side, the start
of the slice was negative so that nothing was masked: the second chance found
the same peak and the secondary peaks were copies of the first one.
---
 src/fluidimage/calcul/correl.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index a006ba0..0f23a26 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -223,6 +223,14 @@ class CorrelBase(ABC):
             correl, norm, self.start_stop_for_search0, self.start_stop_for_search1
         )
 
+    def _mask_peak(self, correl, ix, iy):
+        """Fill the neighborhood of a peak with nan (in place)"""
+        # max(0, ...) because a negative index would mean "from the end"
+        correl[
+            max(0, iy - self.particle_radius) : iy + self.particle_radius + 1,
+            max(0, ix - self.particle_radius) : ix + self.particle_radius + 1,
+        ] = np.nan
+
     def compute_displacements_from_correl(self, correl, norm=1.0):
         """Compute the displacement from a correlation."""
 
@@ -231,10 +239,7 @@ class CorrelBase(ABC):
         except PIVError as piv_error:
             ix, iy, correl_max = piv_error.results
             # second chance to find a better peak...
-            correl[
-                iy - self.particle_radius : iy + self.particle_radius + 1,
-                ix - self.particle_radius : ix + self.particle_radius + 1,
-            ] = np.nan
+            self._mask_peak(correl, ix, iy)
             try:
                 ix2, iy2, correl_max2 = self._compute_indices_max(correl, norm)
             except PIVError as _piv_error:
@@ -253,10 +258,7 @@ class CorrelBase(ABC):
             correl = correl.copy()
             other_peaks = []
             for _ in range(0, self.nb_peaks_to_search - 1):
-                correl[
-                    iy - self.particle_radius : iy + self.particle_radius + 1,
-                    ix - self.particle_radius : ix + self.particle_radius + 1,
-                ] = np.nan
+                self._mask_peak(correl, ix, iy)
                 try:
                     ix, iy, correl_max_other = self._compute_indices_max(
                         correl, norm
-- 
2.43.0


From e6ac9f04dbfb679e1f642ac6a8471352ab2c1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:11 +0000
Subject: [PATCH 02/58] fix: no AssertionError when all correlation values are
 nan

It can happen for the second chance or the secondary peaks when
displacement_max is small compared to particle_radius. The search of peaks
now ends with a PIVError, as for other failures of the search.
---
 src/fluidimage/calcul/correl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 0f23a26..fab18da 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -105,11 +105,12 @@ def nan_indices_max(
             correl_max = value
             break
 
-    assert not np.isnan(correl_max)
-
     i0_max = 0
     i1_max = 0
 
+    if np.isnan(correl_max):
+        return i0_max, i1_max, "No valid correlation value (only nan)."
+
     for i0 in range(i0_start, i0_stop):
         for i1 in range(i1_start, i1_stop):
             value = correl[i0, i1]
-- 
2.43.0


From 129465f41a84a4c3b2777b99d6b18b74eb7dc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:11 +0000
Subject: [PATCH 03/58] fix: parameter displacement_max with the methods
 pythran and pycuda

The local variable displacement_max was not defined in this case
(UnboundLocalError).
---
 src/fluidimage/calcul/correl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index fab18da..8c8ee30 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -401,6 +401,8 @@ class CorrelPythran(CorrelBase):
                     // 2
                     - 1
                 )
+        else:
+            displacement_max = int(self.displacement_max)
         if displacement_max <= 0:
             raise ValueError(
                 "displacement_max <= 0 : problem with images shapes?"
@@ -436,6 +438,8 @@ class CorrelPyCuda(CorrelBase):
                     // 2
                     - 1
                 )
+        else:
+            displacement_max = int(self.displacement_max)
         if displacement_max <= 0:
             raise ValueError(
                 "displacement_max <= 0 : problem with images shapes?"
-- 
2.43.0


From 6a118152c5225f4a1cb59f1f17697fcbcf7248bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 04/58] fix: direct correlation out of bounds with odd window
 sizes

---
 src/fluidimage/calcul/correl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 8c8ee30..4bde45d 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -337,7 +337,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + nx1 + dispx - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
@@ -350,7 +350,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix + disp_max + 1] = tmp / (nxmax * nymax)
     for xiy in range(disp_max):
         dispy = xiy + 1
-        nymax = ny1 - max(ny0 // 2 + ny1 // 2 + dispy - ny0, 0)
+        nymax = ny1 - max(ny0 // 2 - ny1 // 2 + ny1 + dispy - ny0, 0)
         ny1dep = 0
         ny0dep = ny0 // 2 - ny1 // 2 + dispy
         for xix in range(disp_max + 1):
@@ -368,7 +368,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy + disp_max + 1, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + nx1 + dispx - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
-- 
2.43.0


From 0e9dc59087dfbd482234e6c9fbd8ca24ac46d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 05/58] fix: report an error when the subpixel displacement is
 nan

---
 src/fluidimage/calcul/subpix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/subpix.py b/src/fluidimage/calcul/subpix.py
index 8276c32..c19da24 100644
--- a/src/fluidimage/calcul/subpix.py
+++ b/src/fluidimage/calcul/subpix.py
@@ -200,7 +200,8 @@ class SubPix:
         elif method == "no_subpix":
             deplx = deply = 0.0
 
-        if deplx**2 + deply**2 > 2 * (0.5 + nsubpix) ** 2:
+        # written such that the condition is also true for nan
+        if not deplx**2 + deply**2 <= 2 * (0.5 + nsubpix) ** 2:
             self.count_too_large_depl += 1
             if method == "2d_gaussian2":
                 return self.compute_subpix(
-- 
2.43.0


From 5aced0536ba11ceb4c826fcd10e332223013f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 06/58] fix: compare with displacement_max squared for
 secondary peaks

---
 src/fluidimage/works/piv/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 8867d64..476b3b3 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -189,7 +189,7 @@ Parameters indicating how are detected and processed false vectors.
 
                 if (
                     self.params_fix.displacement_max
-                    and dx**2 + dy**2 > self.params_fix.displacement_max
+                    and dx**2 + dy**2 > self.params_fix.displacement_max**2
                 ):
                     continue
 
-- 
2.43.0


From 6858f957a8f96ff74c9f0086ee131c2dc6a7ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 07/58] fix: WorkFIX with threshold_diff_neighbour equal to
 None

---
 src/fluidimage/works/piv/fix.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 476b3b3..7a537a6 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -102,8 +102,10 @@ Parameters indicating how are detected and processed false vectors.
                 inds = (delta2s > displacement_max2).nonzero()[0]
             put_to_nan(inds, "delta2 < displacement_max2")
 
-        if self.params_fix.threshold_diff_neighbour is not None:
-            threshold = self.params_fix.threshold_diff_neighbour
+        threshold = self.params_fix.threshold_diff_neighbour
+        check_other_peaks = self.piv_work.params.piv0.nb_peaks_to_search >= 2
+
+        if threshold is not None or check_other_peaks:
             ixvecs = self.piv_work.ixvecs
             iyvecs = self.piv_work.iyvecs
 
@@ -119,6 +121,7 @@ Parameters indicating how are detected and processed false vectors.
             diff_y = dys_neighbors - deltays
             differences2 = diff_x**2 + diff_y**2
 
+        if threshold is not None:
             with np.errstate(invalid="ignore"):
                 inds = (differences2 > threshold**2).nonzero()[0]
 
@@ -129,10 +132,10 @@ Parameters indicating how are detected and processed false vectors.
                     ivec
                 ] += f" (diff = {sqrt(differences2[ivec]):.2f})"
 
-            piv_results.deltaxs_wrong = deltaxs_wrong
-            piv_results.deltays_wrong = deltays_wrong
+        piv_results.deltaxs_wrong = deltaxs_wrong
+        piv_results.deltays_wrong = deltays_wrong
 
-        if self.piv_work.params.piv0.nb_peaks_to_search < 2:
+        if not check_other_peaks:
             return piv_results
 
         # condition check 2nd peak
-- 
2.43.0


From b8da47a6286f89c88ad3aca540558304238da6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:08 +0000
Subject: [PATCH 08/58] fix: mean over the neighbors for grids with only one
 row or one column

---
 src/fluidimage/calcul/mean_neighbors.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fluidimage/calcul/mean_neighbors.py b/src/fluidimage/calcul/mean_neighbors.py
index bc1bc06..2617277 100644
--- a/src/fluidimage/calcul/mean_neighbors.py
+++ b/src/fluidimage/calcul/mean_neighbors.py
@@ -12,6 +12,21 @@ def _mean_neighbors(arr, arr_is_not_nan):
     arr_output = np.zeros_like(arr)
     arr_nb_pts = np.zeros(arr.shape, dtype=np.uint8)
 
+    if n0 == 1 or n1 == 1:
+        # only one row or one column: no corners
+        for i0 in range(n0):
+            for i1 in range(n1):
+                for j0 in range(max(i0 - 1, 0), min(i0 + 2, n0)):
+                    for j1 in range(max(i1 - 1, 0), min(i1 + 2, n1)):
+                        if j0 != i0 or j1 != i1:
+                            arr_output[i0, i1] += arr_a[j0, j1]
+                            arr_nb_pts[i0, i1] += arr_b[j0, j1]
+                if not arr_is_not_nan[i0, i1] or arr_nb_pts[i0, i1] == 0:
+                    arr_output[i0, i1] = np.nan
+                else:
+                    arr_output[i0, i1] /= arr_nb_pts[i0, i1]
+        return arr_output
+
     # corners
     i0, i1 = 0, 0
     if arr_is_not_nan[i0, i1]:
-- 
2.43.0


From 9d2aef013b07340f599657f502fa797b6fd5c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 09/58] fix: interrogation window as large as the image

---
 src/fluidimage/works/piv/singlepass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 359a360..f57888f 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -119,10 +119,14 @@ class BaseWorkPIV(BaseWorkWithMask):
         assert stepx >= 1
 
         ixvec_max = len_x - self._stop_for_crop0[1]
-        ixvecs = np.arange(self._start_for_crop0[1], ixvec_max, stepx, dtype=int)
+        ixvecs = np.arange(
+            self._start_for_crop0[1], ixvec_max + 1, stepx, dtype=int
+        )
 
         iyvec_max = len_y - self._stop_for_crop0[0]
-        iyvecs = np.arange(self._start_for_crop0[0], iyvec_max, stepy, dtype=int)
+        iyvecs = np.arange(
+            self._start_for_crop0[0], iyvec_max + 1, stepy, dtype=int
+        )
 
         # There are some cases for which it is worth to add the last points...
         if ixvec_max - ixvecs[-1] > stepx // 2.5:
-- 
2.43.0


From bb42457e047b7f294327ed8208ef8f1334015c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 10/58] fix: no wrong windows when the estimated displacement
 points far outside of the image

---
 src/fluidimage/works/piv/singlepass.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index f57888f..de9ec0c 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -394,18 +394,28 @@ class BaseWorkPIV(BaseWorkWithMask):
 
     def _crop_im0(self, ixvec, iyvec, im):
         """Crop image 0."""
+        # no negative index (window outside of the padded image)
         subim = im[
-            iyvec - self._start_for_crop0[0] : iyvec + self._stop_for_crop0[0],
-            ixvec - self._start_for_crop0[1] : ixvec + self._stop_for_crop0[1],
+            max(0, iyvec - self._start_for_crop0[0]) : max(
+                0, iyvec + self._stop_for_crop0[0]
+            ),
+            max(0, ixvec - self._start_for_crop0[1]) : max(
+                0, ixvec + self._stop_for_crop0[1]
+            ),
         ]
         subim = np.ascontiguousarray(subim, dtype=np.float32)
         return subim
 
     def _crop_im1(self, ixvec, iyvec, im):
         """Crop image 1."""
+        # no negative index (window outside of the padded image)
         subim = im[
-            iyvec - self._start_for_crop1[0] : iyvec + self._stop_for_crop1[0],
-            ixvec - self._start_for_crop1[1] : ixvec + self._stop_for_crop1[1],
+            max(0, iyvec - self._start_for_crop1[0]) : max(
+                0, iyvec + self._stop_for_crop1[0]
+            ),
+            max(0, ixvec - self._start_for_crop1[1]) : max(
+                0, ixvec + self._stop_for_crop1[1]
+            ),
         ]
         subim = np.ascontiguousarray(subim, dtype=np.float32)
         return subim
-- 
2.43.0


From 4bd3fd729431f8ee748fed5c0b77b814e52f4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 11/58] fix: gradient of the thin plate splines (x and y
 exchanged in the linear part)

---
 src/fluidimage/calcul/interpolate/thin_plate_spline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline.py b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
index 39d6918..0f6a7a3 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline.py
@@ -246,9 +246,9 @@ def compute_tps_matrices_dxy(dsites, centers):
     s, M = dsites.shape
     s2, N = centers.shape
     assert s == s2
-    Dsites, Centers = np.meshgrid(dsites[1], centers[1])
-    DX = Dsites - Centers
     Dsites, Centers = np.meshgrid(dsites[0], centers[0])
+    DX = Dsites - Centers
+    Dsites, Centers = np.meshgrid(dsites[1], centers[1])
     DY = Dsites - Centers
     DM = DX * DX + DY * DY
     DM[DM != 0] = np.log(DM[DM != 0]) + 1
-- 
2.43.0


From 22cd1353f1227ddd06cf9f1a158a8e4f23a0d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 12/58] fix: KeyError in ThinPlateSplineSubdom without
 threshold

---
 .../calcul/interpolate/thin_plate_spline_subdom.py           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
index 10f7479..3535c76 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
@@ -249,12 +249,11 @@ class ThinPlateSplineSubdom:
             centers, values, smoothing_coef
         )
         count = 1
+        differences = np.sqrt((smoothed_values - values) ** 2)
+        summary["max(Udiff)"] = max(differences)
         if self.threshold is not None:
-            differences = np.sqrt((smoothed_values - values) ** 2)
             ind_erratic_vector = np.argwhere(differences > self.threshold)
 
-            summary["max(Udiff)"] = max(differences)
-
             nb_fixed_vectors = 0
             while ind_erratic_vector.size != 0:
                 nb_fixed_vectors += ind_erratic_vector.size
-- 
2.43.0


From 7137d9c48c9df479cf6469f94f9bdc70b16caf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 13/58] fix: nan for positions outside of the TPS subdomains

---
 .../calcul/interpolate/thin_plate_spline_subdom.py  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
index 3535c76..d7463e4 100644
--- a/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
+++ b/src/fluidimage/calcul/interpolate/thin_plate_spline_subdom.py
@@ -168,8 +168,17 @@ class ThinPlateSplineSubdom:
           new_positions[1] and new_positions[0] correspond to the x and y values, respectively.
 
         """
-        xs = new_positions[1]
-        ys = new_positions[0]
+        # the closest subdomains are used for the positions outside of the subdomains
+        xs = np.clip(
+            new_positions[1],
+            self.limits_min_x[0],
+            np.nextafter(self.limits_max_x[-1], -np.inf),
+        )
+        ys = np.clip(
+            new_positions[0],
+            self.limits_min_y[0],
+            np.nextafter(self.limits_max_y[-1], -np.inf),
+        )
         self.num_new_positions = xs.size
 
         self.ind_new_positions_domains = ind_new_positions_domains = []
-- 
2.43.0


From 4c8360094f923e55247ffa858557071dc354f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 14/58] fix: positions with a crop of the images with negative
 starts

---
 src/fluidimage/works/optical_flow.py   |  1 +
 src/fluidimage/works/piv/singlepass.py |  2 ++
 src/fluidimage/works/with_mask.py      | 17 +++++++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/optical_flow.py b/src/fluidimage/works/optical_flow.py
index 5c947fd..291cd79 100644
--- a/src/fluidimage/works/optical_flow.py
+++ b/src/fluidimage/works/optical_flow.py
@@ -201,6 +201,7 @@ Parameters indicating how are detected and processed false vectors.
             raise ValueError
 
         couple.apply_mask(self.params.mask)
+        self._shape_images = couple.shape_images
 
         im0, im1 = couple.get_arrays()
 
diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index de9ec0c..cbf4b53 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -157,6 +157,7 @@ class BaseWorkPIV(BaseWorkWithMask):
             )
 
         couple.apply_mask(self.params.mask)
+        self._shape_images = couple.shape_images
 
         im0, im1 = couple.get_arrays()
 
@@ -756,6 +757,7 @@ class WorkPIVFromDisplacement(BaseWorkPIV):
             raise ValueError
 
         couple = piv_results.couple
+        self._shape_images = couple.shape_images
 
         im0, im1 = couple.get_arrays()
         if not hasattr(self, "ixvecs_grid"):
diff --git a/src/fluidimage/works/with_mask.py b/src/fluidimage/works/with_mask.py
index 84dc00c..01ed770 100644
--- a/src/fluidimage/works/with_mask.py
+++ b/src/fluidimage/works/with_mask.py
@@ -13,9 +13,22 @@ from . import BaseWork
 
 
 class BaseWorkWithMask(BaseWork):
+    # shape of the images before masking
+    _shape_images = None
+
+    def _get_slices_mask(self):
+        """Get the slices of the mask (without negative start if possible)"""
+        slices = get_slices_from_strcrop(self.params.mask.strcrop)
+        if self._shape_images is None:
+            return slices
+        return tuple(
+            slice(*slice_dim.indices(int(size)))
+            for slice_dim, size in zip(slices, self._shape_images)
+        )
+
     def _xymasked_from_xyoriginalimage(self, xs, ys):
         if self.params.mask.strcrop is not None:
-            slices = get_slices_from_strcrop(self.params.mask.strcrop)
+            slices = self._get_slices_mask()
             if slices[1].start is not None:
                 xs = xs - slices[1].start
             if slices[0].start is not None:
@@ -24,7 +37,7 @@ class BaseWorkWithMask(BaseWork):
 
     def _xyoriginalimage_from_xymasked(self, xs, ys):
         if self.params.mask.strcrop is not None:
-            slices = get_slices_from_strcrop(self.params.mask.strcrop)
+            slices = self._get_slices_mask()
             if slices[1].start is not None:
                 xs = xs + slices[1].start
             if slices[0].start is not None:
-- 
2.43.0


From a38753a036e0d840ff6763df6180a06036259f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 15/58] fix: jobs given to the servers not counted before being
 sent

An item taken by a task was not counted anywhere until the thread sending
it to the server was started, so that the run could be declared finished
and the item lost. Moreover, the number of items of the server was modified
from several threads.
---
 src/fluidimage/executors/exec_async_servers.py |  2 ++
 src/fluidimage/executors/servers.py            | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index a5cbb78..6f1ed37 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -197,6 +197,8 @@ class ExecutorAsyncServers(ExecutorAsync):
             worker.is_available = True
             return
 
+        worker.register_job()
+
         def run_process():
             # create a communication channel
             parent_conn, child_conn = worker.new_pipe()
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 637cc13..e977675 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -86,6 +86,16 @@ class Worker:
         self.is_available = True
         self.is_unoccupied = True
 
+    def register_job(self):
+        """Declare a job that is going to be sent
+
+        Has to be called from the main thread as soon as the item has been
+        taken, otherwise the worker could be considered as unoccupied.
+
+        """
+        self.is_unoccupied = False
+        self.nb_items_to_process += 1
+
     def well_done_thanks(self):
         self.nb_items_to_process -= 1
         if self.nb_items_to_process == 0:
@@ -97,8 +107,7 @@ class Worker:
 
 class WorkerMultiprocessing(Worker):
     def send_job(self, obj):
-        self.is_unoccupied = False
-        self.nb_items_to_process += 1
+        """Send a job (should be called after ``register_job``)"""
         self.send(obj)
 
     def send(self, obj):
-- 
2.43.0


From af5d9310dc26c0a5e99578788379551dd3f2cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 16/58] fix: more than nb_max_workers works at the same time

Several polling loops could start a task before any of these tasks was
counted.
---
 src/fluidimage/executors/exec_async.py           | 6 ++++++
 src/fluidimage/executors/exec_async_multiproc.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 2de8281..3eeec59 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -219,6 +219,9 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
+        if self.nb_working_workers_io >= self.nb_max_workers:
+            # the limit has been reached since this task was started
+            return
         self.nb_working_workers_io += 1
 
         try:
@@ -272,6 +275,9 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
+        if self.nb_working_workers_cpu >= self.nb_max_workers:
+            # the limit has been reached since this task was started
+            return
         self.nb_working_workers_cpu += 1
 
         try:
diff --git a/src/fluidimage/executors/exec_async_multiproc.py b/src/fluidimage/executors/exec_async_multiproc.py
index c893892..2fc03ac 100644
--- a/src/fluidimage/executors/exec_async_multiproc.py
+++ b/src/fluidimage/executors/exec_async_multiproc.py
@@ -49,6 +49,9 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
           A work from the topology
 
         """
+        if self.nb_working_workers_cpu >= self.nb_max_workers:
+            # the limit has been reached since this task was started
+            return
         self.nb_working_workers_cpu += 1
 
         try:
-- 
2.43.0


From 1fa15dcb99767c5e71fc9fcc17d8d916c8457524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 17/58] fix: new directories created by the sub-processes of
 multi_exec_subproc

With saving.how == "new_dir", each sub-process created another new
directory next to the one created by the topology.
---
 src/fluidimage/executors/multi_exec_subproc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 75ad013..49b319d 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -61,7 +61,11 @@ class MultiExecutorSubproc(MultiExecutorBase):
             params.compute_kwargs.kwargs_executor.t_start = self.t_start
 
         if hasattr(self.topology, "how_saving"):
-            params.saving.how = self.topology.how_saving
+            how_saving = self.topology.how_saving
+            if how_saving == "new_dir":
+                # the new directory has already been created by the topology
+                how_saving = "recompute"
+            params.saving.how = how_saving
 
         if hasattr(self.topology, ""):
             params.saving.path = self.topology.path_dir_result
-- 
2.43.0


From c763ae1e03ebbc968e035ccd9f2402e0a2884cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 18/58] fix: several preprocessing subsets saved the same
 images

The position of a subset in the whole series was not given to the work, so that
each subset saved all its images.  The number of images was wrong for slices with
a step, and the middle of an even number of couples started by the second image.
---
 src/fluidimage/data_objects/preproc.py |  6 +++---
 src/fluidimage/topologies/preproc.py   | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index a4cf94f..b3fa6a5 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -34,14 +34,14 @@ def get_Ni_Nj(serie):
 
     nb_indices = serie.nb_indices
     slices = serie.get_slicing_tuples()
-    Ni = slices[0][1] - slices[0][0]
+    Ni = len(range(*slices[0]))
     if nb_indices == 1:
         Nj = 1
     elif nb_indices == 2:
         if len(slices[1]) == 1:
             Nj = 1
         else:
-            Nj = slices[1][1] - slices[1][0]
+            Nj = len(range(*slices[1]))
     else:
         raise NotImplementedError(
             "Cannot evaluate series with more than 2 indices"
@@ -55,7 +55,7 @@ def get_ind_middle(serie):
     ind_middle_start = int(math.floor(Ni / 2.0)) * Nj
     ind_middle_end = int(math.ceil(Ni / 2.0)) * Nj
     if Ni % 2 == 0:
-        ind_middle_start -= 1
+        ind_middle_start -= Nj
 
     return ind_middle_start, ind_middle_end
 
diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index 4aabad2..bf86320 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -184,6 +184,11 @@ Parameters describing image saving after preprocessing.
             ind_step=params.series.ind_step,
         )
 
+        # all subsets (self.series can be restricted to a part of them)
+        self._indices_subsets = range(
+            self.series.ind_start, self.series.ind_stop, self.series.ind_step
+        )
+
         subset = self.series.get_serie_from_index(0)
         self.nb_items_per_serie = subset.get_nb_arrays()
 
@@ -272,8 +277,8 @@ Parameters describing image saving after preprocessing.
             name_preproc = get_name_preproc(
                 subset,
                 names_serie,
-                ind_subset,
-                self.series.nb_series,
+                self._indices_subsets.index(ind_subset),
+                len(self._indices_subsets),
                 self.params.saving.format,
             )
             if not (self.path_dir_result / name_preproc).exists():
@@ -306,7 +311,11 @@ Parameters describing image saving after preprocessing.
                 serie = copy.copy(self.series.get_serie_from_index(key))
 
                 array_subset = ArraySubset(
-                    names=names, arrays=arrays, serie=serie
+                    names=names,
+                    arrays=arrays,
+                    serie=serie,
+                    ind_serie=self._indices_subsets.index(key),
+                    nb_series=len(self._indices_subsets),
                 )
                 output_queue[key] = array_subset
                 del queue_subsets_of_names[key]
-- 
2.43.0


From a1ac41c9ce23faf395c931268b7768c81375894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 19/58] fix: couple with an image out of the serie (surface
 tracking with a step)

---
 src/fluidimage/topologies/surface_tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index ac85126..73fe5b5 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -120,7 +120,8 @@ Parameters indicating the input image set.
             + ":"
             + str(self.serie.get_slicing_tuples()[0][2]),
             ind_start=self.serie.get_slicing_tuples()[0][0],
-            ind_stop=self.serie.get_slicing_tuples()[0][1] - 1,
+            ind_stop=self.serie.get_slicing_tuples()[0][1]
+            - self.serie.get_slicing_tuples()[0][2],
             ind_step=self.serie.get_slicing_tuples()[0][2],
         )
         self.surface_tracking_work = WorkSurfaceTracking(params)
-- 
2.43.0


From d0acb04937fa64c3398368e227ab0f820b7c67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 20/58] fix: crash of a third execution started in the same
 directory during the same second

---
 src/fluidimage/executors/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 02d84a2..b6aac43 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -92,8 +92,8 @@ class ExecutorBase(ABC):
             unique_postfix0 = unique_postfix
             while path_job_data.exists():
                 index += 1
-                unique_postfix = unique_postfix0 + str(index)
-                path_job_data = self.path_dir_result / f"log_{unique_postfix}"
+                unique_postfix = f"{unique_postfix0}_{index}"
+                path_job_data = self.path_dir_result / f"job_{unique_postfix}"
 
         self._unique_postfix = unique_postfix
         self.path_job_data = path_job_data
-- 
2.43.0


From 7b111acdefb30bba0e46dc589898f163653403cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 21/58] fix: crash of the sequential executor when there is
 nothing to be computed

---
 src/fluidimage/executors/exec_sequential.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index d036b58..fe648da 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -79,6 +79,12 @@ class ExecutorSequential(ExecutorBase):
         self.nb_max_workers = 1
         super()._init_compute_log()
 
+    def _save_results_names(self):
+        if self.num_expected_results == 0:
+            # the directory for the job data has not been created
+            return
+        super()._save_results_names()
+
     def _save_job_data(self):
         super()._save_job_data()
         if hasattr(self.topology, "results"):
-- 
2.43.0


From b5e2d8f9751d637024984aa574272623dad27e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 22/58] fix: preprocessed images saved with format hdf5 and
 other formats (mode complete)

---
 src/fluidimage/data_objects/preproc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index b3fa6a5..6758ba0 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -76,9 +76,14 @@ def get_name_preproc(serie, name_files, ind_serie, nb_series, out_format):
         return name_files[s]
 
     else:
-        fname, ext = os.path.splitext(name_files[s])
-        fname += "." + out_format
-        return fname
+        return get_name_with_format(name_files[s], out_format)
+
+
+def get_name_with_format(name_file, out_format):
+    """Name of a file saved in the format `out_format`"""
+    if out_format == "hdf5":
+        out_format = "h5"
+    return os.path.splitext(name_file)[0] + "." + out_format
 
 
 class ArraySerie(ArrayCouple):
@@ -157,7 +162,7 @@ class PreprocResults(LightPIVResults):
             path_file = os.path.join(path, k)
             if out_format == "img":
                 imsave(path_file, v, as_int=True)
-            elif out_format == "h5":
+            elif out_format in ("h5", "hdf5"):
                 attrs = {
                     "class_name": "PreprocResults",
                     "module_name": self.__module__,
@@ -165,6 +170,7 @@ class PreprocResults(LightPIVResults):
                 imsave_h5(path_file, v, self.params, attrs, as_int=True)
             else:
                 # Try to save in formats supported by PIL.Image
+                path_file = get_name_with_format(path_file, out_format)
                 imsave(path_file, v, format=out_format, as_int=True)
 
         self.clear_data()
-- 
2.43.0


From 560a0a36775cb5274d48e547042ebf5f0c6527d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 23/58] fix: run never ending with preproc.im2im for BOS

---
 src/fluidimage/topologies/bos.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 6caacba..837e979 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -32,11 +32,6 @@ class SplitterBos(SplitterFromImages):
         self.params.reference = topology.path_reference
 
 
-def _imread(path):
-    image = imread(path)
-    return image, Path(path).name
-
-
 class TopologyBOS(TopologyBaseFromImages):
     """Topology for BOS computation.
 
@@ -120,7 +115,7 @@ class TopologyBOS(TopologyBaseFromImages):
 
         self.add_work(
             "read array",
-            func_or_cls=_imread,
+            func_or_cls=imread,
             input_queue=queue_paths,
             output_queue=queue_arrays,
             kind="io",
@@ -130,6 +125,13 @@ class TopologyBOS(TopologyBaseFromImages):
             im2im_func = image2image.get_im2im_function_from_params(
                 params.preproc
             )
+            # the reference has to be processed as the other images
+            self.main_work.image_reference = im2im_func(
+                (
+                    self.main_work.name_reference,
+                    self.main_work.image_reference,
+                )
+            )
 
             self.add_work(
                 "image2image",
@@ -143,8 +145,9 @@ class TopologyBOS(TopologyBaseFromImages):
             "compute bos",
             func_or_cls=self.calcul,
             params_cls=params,
-            input_queue=queue_arrays,
+            input_queue=queue_arrays1,
             output_queue=queue_bos,
+            kind="eat key value",
         )
 
         self.add_work(
@@ -160,9 +163,10 @@ class TopologyBOS(TopologyBaseFromImages):
         ret = obj.save(self.path_dir_result, kind="bos")
         self.results.append(ret)
 
-    def calcul(self, tuple_image_path):
+    def calcul(self, tuple_name_image):
         """Compute a BOS field"""
-        return self.main_work.calcul(tuple_image_path)
+        name, image = tuple_name_image
+        return self.main_work.calcul((image, name))
 
     def _get_name_result_from_name(self, name):
         return get_name_bos(name, self.serie)
-- 
2.43.0


From c1b5c35b9d57900360ddb7537e9b151f452bb13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 24/58] fix: mode complete for surface tracking (results looked
 for with a wrong name)

---
 src/fluidimage/topologies/surface_tracking.py | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index 73fe5b5..de47b76 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -272,24 +272,18 @@ Parameters indicating the input image set.
             return
 
         names = serie.get_name_arrays()
-        for name in names:
-            path_im_output = self.path_dir_result / name
-            path_im_input = str(self.path_dir_src / name)
-            if self.how_saving == "complete":
-                if not path_im_output.exists():
-                    queue_paths[name] = path_im_input
-            else:
-                queue_paths[name] = path_im_input
-
-        if len(names) == 0:
-            if self.how_saving == "complete":
-                logger.warning(
-                    'topology in mode "complete" and work already done.'
-                )
-            else:
-                logger.warning("Nothing to do")
+
+        # Each result depends on the previous ones so they have all to be
+        # recomputed except if none is missing
+        if self.how_saving == "complete" and all(
+            (self.path_dir_result / (name + ".h5")).exists() for name in names
+        ):
+            logger.warning('topology in mode "complete" and work already done.')
             return
 
+        for name in names:
+            queue_paths[name] = str(self.path_dir_src / name)
+
         nb_names = len(names)
         logger.info(f"Add {nb_names} images to compute.")
         logger.info("First files to process: " + str(names[:4]))
-- 
2.43.0


From eac8af6862d985718274b0ce4bf21f0dd8144523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 25/58] fix: name of a PIV field for file names with three
 indices

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 34658f7..217d6fd 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -50,7 +50,7 @@ def get_name_piv(serie, prefix="piv"):
                 str_index += sep + last
 
         if idim > 1:
-            str_indices += serie.get_index_separators[idim - 1]
+            str_indices += serie.get_index_separators()[idim - 1]
         str_indices += str_index
 
     name = prefix + "_" + str_indices + ".h5"
-- 
2.43.0


From 4b67c5450d3fec5da66d6e6f20012910d6f047ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 26/58] fix: name of a BOS field for files without extension

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 217d6fd..be09696 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -59,7 +59,7 @@ def get_name_piv(serie, prefix="piv"):
 
 def get_name_bos(name, serie):
     name = name[len(serie.base_name) :]
-    if serie.extension_file is not None:
+    if serie.extension_file:
         name = name[: -len(serie.extension_file) - 1]
     return "bos" + name + ".h5"
 
-- 
2.43.0


From 8293f9d2a1009f4754f3d17358d638804ef3fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 27/58] fix: reference not excluded from the BOS images when
 params.images.path is relative

---
 src/fluidimage/topologies/bos.py | 3 ++-
 src/fluidimage/works/bos.py      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 837e979..9fe07b1 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -174,7 +174,8 @@ class TopologyBOS(TopologyBaseFromImages):
     def _fix_indices_images(self, indices_images):
         """Fix the indices images in fill_queue_paths"""
 
-        if not self.path_reference.is_relative_to(self.serie.path_dir):
+        path_dir = Path(self.serie.path_dir).absolute()
+        if self.path_reference.absolute().parent != path_dir:
             return
 
         if not self.path_reference.name.startswith(self.serie.base_name):
diff --git a/src/fluidimage/works/bos.py b/src/fluidimage/works/bos.py
index 2a4365c..b15e8cb 100644
--- a/src/fluidimage/works/bos.py
+++ b/src/fluidimage/works/bos.py
@@ -71,7 +71,7 @@ class WorkBOS(BaseWorkFromImage):
                 path_reference = self.path_dir_src / reference
                 if not path_reference.is_file():
                     raise ValueError(
-                        "Bad value of params.reference:" + path_reference
+                        f"Bad value of params.reference: {path_reference}"
                     )
         return path_reference
 
-- 
2.43.0


From 5c99ba5e37fbba44aade99cf36d10630954cc168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 28/58] fix: whole computation stopped by a file that can not
 be read as an image

---
 src/fluidimage/util/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index a2cc515..3dbfb8a 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -56,6 +56,10 @@ def imread(path):
     except Exception as error:
         raise type(error)(path).with_traceback(error.__traceback__)
 
+    if array is None:
+        # the function imread of OpenCV does not raise an error in this case
+        raise OSError(f"The file {path} cannot be read as an image.")
+
     return array
 
 
-- 
2.43.0


From b05c1b3e786edba3768f7a714a47f92c480c6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 29/58] fix: capital answers accepted but without effect when
 the result directory exists

---
 src/fluidimage/topologies/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 5e23548..f2f5a81 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -81,6 +81,7 @@ def prepare_path_dir_result(
                     "The answer should be in ['n', 'c', 'r', 's']\n"
                     "Please type your answer again...\n"
                 )
+            answer = answer.lower()
 
             if answer == "s":
                 print("Stopped by the user.")
-- 
2.43.0


From 14e08a3a123f10ef7158697f01bbfc0f75aff75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 30/58] fix: TypeError for the mode new_dir with
 params.saving.path given as a Path

---
 src/fluidimage/topologies/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index f2f5a81..79a20a7 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -60,7 +60,7 @@ def prepare_path_dir_result(
     path_dir_input = str(path_dir_input)
 
     if path_saving is not None:
-        path_dir_result = path_saving
+        path_dir_result = str(path_saving)
     else:
         path_dir_result = path_dir_input + "." + postfix_saving
 
-- 
2.43.0


From f1ace96ac308683d9745330cc3feec65e51ea537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 31/58] fix: results saved inside the directory of the images
 for paths ending with a separator

---
 src/fluidimage/topologies/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 79a20a7..5fe155d 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -57,10 +57,15 @@ def prepare_path_dir_result(
             f"should be in {how_values}"
         )
 
+    # without separator at the end
+    path_dir_input = Path(path_dir_input)
+    if path_dir_input.name in ("", ".."):
+        # for example current directory
+        path_dir_input = path_dir_input.resolve()
     path_dir_input = str(path_dir_input)
 
     if path_saving is not None:
-        path_dir_result = str(path_saving)
+        path_dir_result = str(Path(path_saving))
     else:
         path_dir_result = path_dir_input + "." + postfix_saving
 
-- 
2.43.0


From b124610805daed54f644b4e9aedb10683521113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 32/58] fix: results of the images of a movie saved in the same
 file (BOS and preprocessing)

---
 src/fluidimage/data_objects/piv.py     | 7 ++++++-
 src/fluidimage/data_objects/preproc.py | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index be09696..1d50611 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -59,9 +59,14 @@ def get_name_piv(serie, prefix="piv"):
 
 def get_name_bos(name, serie):
     name = name[len(serie.base_name) :]
+    internal_index = ""
+    if name.endswith("]"):
+        # image in a movie
+        name, internal_index = name[:-1].rsplit("[", 1)
+        internal_index = "_" + internal_index
     if serie.extension_file:
         name = name[: -len(serie.extension_file) - 1]
-    return "bos" + name + ".h5"
+    return "bos" + name + internal_index + ".h5"
 
 
 class DataObject:
diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index 6758ba0..45754b7 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -83,7 +83,11 @@ def get_name_with_format(name_file, out_format):
     """Name of a file saved in the format `out_format`"""
     if out_format == "hdf5":
         out_format = "h5"
-    return os.path.splitext(name_file)[0] + "." + out_format
+    root, ext = os.path.splitext(name_file)
+    if ext.endswith("]"):
+        # image in a movie
+        root += "_" + ext[:-1].rsplit("[", 1)[1]
+    return root + "." + out_format
 
 
 class ArraySerie(ArrayCouple):
@@ -167,6 +171,8 @@ class PreprocResults(LightPIVResults):
                     "class_name": "PreprocResults",
                     "module_name": self.__module__,
                 }
+                if path_file.endswith("]"):
+                    path_file = get_name_with_format(path_file, out_format)
                 imsave_h5(path_file, v, self.params, attrs, as_int=True)
             else:
                 # Try to save in formats supported by PIL.Image
-- 
2.43.0


From 5e85978be63a89ce8d749806282a8f5abcde63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 33/58] fix: mean image: whole computation stopped by an image
 that can not be read

---
 src/fluidimage/topologies/mean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index 9cdbba0..b401448 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -129,6 +129,9 @@ class TopologyMeanImage(TopologyBaseFromImages):
 
         while queue_arrays:
             name, arr = queue_arrays.pop_first_item()
+            if isinstance(arr, Exception):
+                # image that can not be read (already logged)
+                continue
             queue_tmp_arrays.append((arr.astype(np.uint32), 1))
 
         self.reduce_queue_tmp_arrays4(queue_tmp_arrays)
-- 
2.43.0


From 2629dffee8113642a97966df58863e65eb8b22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 34/58] fix: light PIV result of an intermediate pass with x
 instead of y positions

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 1d50611..af13f56 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -730,7 +730,7 @@ class MultipassPIVResults(DataObject):
             deltaxs = piv.deltaxs_approx
             deltays = piv.deltays_approx
             ixvec = piv.ixvecs_approx
-            iyvec = piv.ixvecs_approx
+            iyvec = piv.iyvecs_approx
 
         if hasattr(self, "file_name"):
             file_name = self.file_name
-- 
2.43.0


From bca490d235f8810ec480eb4bf58fdb2565a3167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 35/58] fix: AttributeError for the light PIV result of the
 last pass given by its index

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index af13f56..00e4aa1 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -720,7 +720,7 @@ class MultipassPIVResults(DataObject):
 
     def make_light_result(self, ind_pass=-1):
         piv = self.passes[ind_pass]
-        if ind_pass == -1:
+        if piv is self.passes[-1]:
             deltaxs = piv.deltaxs_final
             deltays = piv.deltays_final
             ixvec = piv.ixvecs_final
-- 
2.43.0


From 46f739286d2de5c2714054f4b1178286905ec30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 36/58] fix: order of the TPS subdomains of loaded PIV fields
 with more than 10 subdomains

---
 src/fluidimage/data_objects/piv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 00e4aa1..5bdd110 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -504,12 +504,12 @@ class HeavyPIVResults(DataObject):
         if "deltaxs_tps" in g_piv.keys():
             g = g_piv["deltaxs_tps"]
             self.deltaxs_tps = []
-            for arr in g.keys():
-                self.deltaxs_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltaxs_tps.append(g[f"subdom{i}"][...])
             g = g_piv["deltays_tps"]
             self.deltays_tps = []
-            for arr in g.keys():
-                self.deltays_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltays_tps.append(g[f"subdom{i}"][...])
 
     def get_grid_pixel(self, index_pass):
         """Recompute 1d arrays containing the approximate positions of the vectors
-- 
2.43.0


From 88cec2d42a3226ec209464c1a5c07411b4ef07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 37/58] fix: extract_square for fields with more rows than
 columns

---
 src/fluidimage/postproc/vector_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 3ada5a3..ba483c0 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -530,7 +530,7 @@ class VectorFieldOnGrid:
             start1 = cut
             stop1 = cut + n
             start0 = (n0 - n) // 2
-            stop0 = start1 + n
+            stop0 = start0 + n
 
         return self.extract(start0, stop0, start1, stop1)
 
-- 
2.43.0


From afa08fe12fece10a9cffd36fd75a3836b982c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 38/58] fix: saving of vector fields with z equal to None
 (obtained from PIV files)

---
 src/fluidimage/postproc/vector_field.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index ba483c0..215b506 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -185,7 +185,9 @@ class VectorFieldOnGrid:
             file.attrs["module_name"] = cls.__module__
 
             for attr_name in self._attr_saved_as_dataset:
-                file.create_dataset(attr_name, data=getattr(self, attr_name))
+                value = getattr(self, attr_name)
+                if value is not None:
+                    file.create_dataset(attr_name, data=value)
 
             for attr_name in self._attr_saved_as_attr:
                 file.attrs[attr_name] = getattr(self, attr_name)
@@ -251,7 +253,10 @@ class VectorFieldOnGrid:
             kwargs = {}
             with h5py.File(path, "r") as file:
                 for attr_name in cls._attr_saved_as_dataset:
-                    kwargs[attr_name] = file[attr_name][...]
+                    if attr_name in file:
+                        kwargs[attr_name] = file[attr_name][...]
+                    else:
+                        kwargs[attr_name] = None
                 for attr_name in cls._attr_saved_as_attr:
                     attr = file.attrs[attr_name]
                     if isinstance(attr, np.ndarray):
-- 
2.43.0


From 30802a64eff77eb7d1acd3bf48ae69a38a211721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 39/58] fix: crash of median_filter for loaded vector fields
 (vz given as a 0d array)

---
 src/fluidimage/postproc/vector_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 215b506..8ba3f63 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -107,6 +107,8 @@ class VectorFieldOnGrid:
     ):
         if isinstance(z, np.ndarray) and z.ndim == 0:
             z = z.item()
+        if isinstance(vz, np.ndarray) and vz.ndim == 0:
+            vz = vz.item()
 
         self.x = x
         self.y = y
-- 
2.43.0


From 34d87bd97cf9066ac2bf58b4ad87c891a25d8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 40/58] fix: get_grid_pixel with a crop of the images

---
 src/fluidimage/postproc/piv.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/postproc/piv.py b/src/fluidimage/postproc/piv.py
index 9d351f2..781ffcd 100644
--- a/src/fluidimage/postproc/piv.py
+++ b/src/fluidimage/postproc/piv.py
@@ -18,6 +18,7 @@
 import h5py
 
 from fluiddyn.util.paramcontainer import ParamContainer
+from fluidimage.data_objects.piv import get_slices_from_strcrop
 from fluidimage.works.piv.multipass import WorkPIV
 
 from .vector_field import ArrayOfVectorFieldsOnGrid, VectorFieldOnGrid
@@ -100,13 +101,23 @@ def get_grid_pixel(params, shape_images, index_pass=-1):
     params_default._modif_from_other_params(params)
 
     work_multi = WorkPIV(params_default)
-    work_multi._prepare_with_image(imshape=shape_images)
+
+    # shape of the images after the application of the mask
+    shape_images = tuple(int(size) for size in shape_images)
+    imshape = shape_images
+    if params_default.mask.strcrop is not None:
+        imshape = tuple(
+            len(range(*slice_dim.indices(size)))
+            for slice_dim, size in zip(
+                get_slices_from_strcrop(params_default.mask.strcrop), shape_images
+            )
+        )
+    work_multi._prepare_with_image(imshape=imshape)
 
     work = work_multi.works_piv[index_pass]
-    xs1d = work.ixvecs
-    ys1d = work.iyvecs
+    work._shape_images = shape_images
 
-    return xs1d, ys1d
+    return work._xyoriginalimage_from_xymasked(work.ixvecs, work.iyvecs)
 
 
 class ArrayPIV(ArrayOfVectorFieldsOnGrid):
-- 
2.43.0


From 1817e7687aa6c77e29ca701141e5c50dfa40f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 41/58] fix: overflows in preprocessing tools for images of
 unsigned integers

sharpen, rescale_intensity_tanh with its default threshold, and subtraction of
the median, percentile or minimum with an integer weight.
---
 src/fluidimage/works/preproc/_toolbox_py.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 9cf3132..dea5596 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -84,7 +84,7 @@ def sliding_median(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.median_filter(
+    img_out = img - float(weight) * ndi.median_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -119,7 +119,7 @@ def sliding_percentile(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -148,7 +148,7 @@ def sliding_minima(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.minimum_filter(
+    img_out = img - float(weight) * ndi.minimum_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -204,7 +204,7 @@ def temporal_median(img=None, weight=1.0, window_shape=None):
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.median_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.median_filter(img, size=window_shape)
     return img_out
 
 
@@ -230,7 +230,7 @@ def temporal_percentile(img=None, percentile=10.0, weight=1.0, window_shape=None
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_shape
     )
     return img_out
@@ -252,7 +252,7 @@ def temporal_minima(img=None, weight=1.0, window_shape=None):
 
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
-    img_out = img - weight * ndi.minimum_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.minimum_filter(img, size=window_shape)
     return img_out
 
 
@@ -345,7 +345,7 @@ def rescale_intensity_tanh(img=None, threshold=None):
 
     """
     if threshold is None:
-        threshold = 2 * np.sqrt(np.mean(img**2))
+        threshold = 2 * np.sqrt(np.mean(img.astype(float) ** 2))
 
     if threshold == 0:
         return img
@@ -483,7 +483,7 @@ def sharpen(img=None, sigma1=3.0, sigma2=1.0, alpha=30.0):
         Factor by which the image will be sharpened
 
     """
-    blurred = ndi.gaussian_filter(img, sigma1)
+    blurred = ndi.gaussian_filter(img.astype(float), sigma1)
     filter_blurred = ndi.gaussian_filter(blurred, sigma2)
 
     img_out = blurred + alpha * (blurred - filter_blurred)
-- 
2.43.0


From ba0969d27555c3de6f3e1a98fd43948fb9be0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 42/58] fix: negative intensities given by the temporal tools
 and sharpen

They were saved as very bright pixels (conversion to unsigned integers). The
sliding tools already replace them with zero.
---
 src/fluidimage/works/preproc/_toolbox_py.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index dea5596..a031236 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -205,6 +205,7 @@ def temporal_median(img=None, weight=1.0, window_shape=None):
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
     img_out = img - float(weight) * ndi.median_filter(img, size=window_shape)
+    img_out[img_out < 0] = 0
     return img_out
 
 
@@ -233,6 +234,7 @@ def temporal_percentile(img=None, percentile=10.0, weight=1.0, window_shape=None
     img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_shape
     )
+    img_out[img_out < 0] = 0
     return img_out
 
 
@@ -253,6 +255,7 @@ def temporal_minima(img=None, weight=1.0, window_shape=None):
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
     img_out = img - float(weight) * ndi.minimum_filter(img, size=window_shape)
+    img_out[img_out < 0] = 0
     return img_out
 
 
@@ -487,4 +490,5 @@ def sharpen(img=None, sigma1=3.0, sigma2=1.0, alpha=30.0):
     filter_blurred = ndi.gaussian_filter(blurred, sigma2)
 
     img_out = blurred + alpha * (blurred - filter_blurred)
+    img_out[img_out < 0] = 0
     return img_out
-- 
2.43.0


From 79e4702e15ab1112abfe97095cbbffb9340cf119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 43/58] fix: rescale_intensity_tanh gave NaN for black images
 with a threshold

---
 src/fluidimage/works/preproc/_toolbox_py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index a031236..036ed65 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -350,7 +350,7 @@ def rescale_intensity_tanh(img=None, threshold=None):
     if threshold is None:
         threshold = 2 * np.sqrt(np.mean(img.astype(float) ** 2))
 
-    if threshold == 0:
+    if threshold == 0 or not np.any(img):
         return img
 
     img_out = np.tanh(img / threshold)
-- 
2.43.0


From 7a680da036df7369b202dfc8c585fe2d11ec77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 44/58] fix: adaptive_threshold returned the local threshold
 and not a binary image

---
 src/fluidimage/works/preproc/_toolbox_py.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 036ed65..bb88aee 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -308,7 +308,8 @@ def adaptive_threshold(img=None, window_size=5, offset=0):
         Constant to be subtracted from the mean.
 
     """
-    img_out = filters.threshold_local(img, window_size, offset=offset)
+    threshold = filters.threshold_local(img, window_size, offset=offset)
+    img_out = np.where(img > threshold, img.max(), 0)
     return img_out
 
 
-- 
2.43.0


From 9d2716446fa3e49fbdf4673ef2fb4aa024b5e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 45/58] fix: Calibration.phys2pix modified its arguments

---
 src/fluidimage/calibration/calib_tsai.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index b0a9f5e..ec7d359 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -166,9 +166,9 @@ class Calibration:
 
     def phys2pix(self, Xphys, Yphys, Zphys=0):
         params = copy.deepcopy(self.params)
-        Xphys *= 100  # m to cm
-        Yphys *= 100  # m to cm
-        Zphys *= 100  # m to cm
+        Xphys = Xphys * 100  # m to cm
+        Yphys = Yphys * 100  # m to cm
+        Zphys = Zphys * 100  # m to cm
 
         if hasattr(params, "f") is False:
             params.f = np.asarray([1, 1])
-- 
2.43.0


From 74fc189e6e2b1e10350e14abc189fc7e8f09e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 46/58] fix: calibration of tilted planes: crash without
 refraction, wrong height with refraction

---
 src/fluidimage/calibration/calib_tsai.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index ec7d359..1b5e233 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -69,6 +69,7 @@ class Calibration:
             # horizontal plane z=cte
             Z0 = params.slices.zslice_coord[index_level][2]
         Z0virt = Z0
+        test_refraction = 0
         if hasattr(params, "interface_coord") and hasattr(
             params, "refraction_index"
         ):
@@ -110,16 +111,19 @@ class Calibration:
             if testangle:
                 a = -norm_plane[0] / norm_plane[2]
                 b = -norm_plane[1] / norm_plane[2]
+                # slopes of the corrected plane (virtual object)
+                avirt = a
+                bvirt = b
                 if test_refraction:
-                    a /= params.refraction_index
-                    b /= params.refraction_index
-
-                R[0] += a * R[2]
-                R[1] += b * R[2]
-                R[3] += a * R[5]
-                R[4] += b * R[5]
-                R[6] += a * R[8]
-                R[7] += b * R[8]
+                    avirt = a / params.refraction_index
+                    bvirt = b / params.refraction_index
+
+                R[0] += avirt * R[2]
+                R[1] += bvirt * R[2]
+                R[3] += avirt * R[5]
+                R[4] += bvirt * R[5]
+                R[6] += avirt * R[8]
+                R[7] += bvirt * R[8]
 
             Tx = params.T[0]
             Ty = params.T[1]
-- 
2.43.0


From ae2019a005a2353fdda59dc36c110755959468d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 47/58] fix: Calibration.phys2pix with a refraction index and
 arrays of heights

---
 src/fluidimage/calibration/calib_tsai.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index 1b5e233..93936bc 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -186,8 +186,9 @@ class Calibration:
                 params, "refraction_index"
             ):
                 H = params.interface_coord[2]
-                if H > Zphys:
-                    Zphys = H - (H - Zphys) / params.refraction_index
+                Zphys = np.where(
+                    H > Zphys, H - (H - Zphys) / params.refraction_index, Zphys
+                )
             # corrected z (virtual object)
 
             # camera coordinates
-- 
2.43.0


From 104b03557b84e53633b6e45f9afde789f559463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 48/58] fix: IndexError for the fourth level of a calibration
 without slice angles

---
 src/fluidimage/calibration/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calibration/util.py b/src/fluidimage/calibration/util.py
index faae0b2..056fcd9 100644
--- a/src/fluidimage/calibration/util.py
+++ b/src/fluidimage/calibration/util.py
@@ -110,7 +110,7 @@ def make_params_calibration(path_file):
                     calib_uvmat["slice_angle"]
                 )
             else:
-                slice_angle = [0, 0, 0]
+                slice_angle = np.zeros([nb_slice, 3])
         else:
             for i in range(nb_slice):
                 zslice_coord[i][:] = get_number_from_string(
@@ -127,7 +127,7 @@ def make_params_calibration(path_file):
                         calib_uvmat["slice_angle_{}".format(i + 1)]
                     )
             else:
-                slice_angle = [0, 0, 0]
+                slice_angle = np.zeros([nb_slice, 3])
 
         params._set_child(
             "slices",
-- 
2.43.0


From ccb750a3b250bf09f58ed4966001f05adf63b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 49/58] fix: aspect ratio of the pixels applied to the wrong
 direction in Calibration2DSimple

---
 src/fluidimage/calibration/calib2d_simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib2d_simple.py b/src/fluidimage/calibration/calib2d_simple.py
index 2a5f718..48186c5 100644
--- a/src/fluidimage/calibration/calib2d_simple.py
+++ b/src/fluidimage/calibration/calib2d_simple.py
@@ -72,7 +72,7 @@ class Calibration2DSimple:
         self.aspect_ratio_pixel = aspect_ratio_pixel
 
         self.xphys1pixel = distance / np.sqrt(
-            delta_point[0] ** 2 + (aspect_ratio_pixel * delta_point[1]) ** 2
+            (aspect_ratio_pixel * delta_point[0]) ** 2 + delta_point[1] ** 2
         )
         self.yphys1pixel = aspect_ratio_pixel * self.xphys1pixel
 
-- 
2.43.0


From 72c0800ea494d5e05927ff53427ed36fd5952291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 50/58] fix: wrong optical path of the pixels that are not seen
 at all levels (CalibDirect)

---
 src/fluidimage/calibration/calib_direct.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index ffdf6c1..f33ff2c 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -233,13 +233,12 @@ class CalibDirect:
         X = np.array(X)
         Y = np.array(Y)
         XYZ = np.vstack([X, Y, Z]).transpose()
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=RuntimeWarning)
-            XYZ0 = np.nanmean(XYZ, 0)
-        XYZ -= XYZ0
+        # only the levels for which the position of the pixel is known
         ind = ~np.isnan(X + Y)
         XYZ = XYZ[ind, :]
         if XYZ.shape[0] > 1:
+            XYZ0 = np.mean(XYZ, 0)
+            XYZ -= XYZ0
             arg = np.argsort(XYZ[:, 2])
             XYZ = XYZ[arg, :]
             u, s, v = np.linalg.svd(XYZ, full_matrices=True, compute_uv=1)
-- 
2.43.0


From fb24189e6d29cfb0071da2d911b9b91fa70bba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 51/58] fix: stereo reconstruction: criterion on the angle
 between the base vectors of the cameras

The base vectors are the columns of A0 and A1 (rows of B0 and B1).
---
 src/fluidimage/calibration/calib_direct.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index f33ff2c..b309db6 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -585,10 +585,10 @@ class DirectStereoReconstruction:
 
         # in the case where 2 vectors from different cameras are approximately
         # the same, they don't have to be used both in the computation
-        n1 = np.abs(np.inner(self.A0[0], self.A1[0]))
-        n2 = np.abs(np.inner(self.A0[1], self.A1[1]))
-        n3 = np.abs(np.inner(self.A0[1], self.A1[0]))
-        n4 = np.abs(np.inner(self.A0[0], self.A1[1]))
+        n1 = np.abs(np.inner(self.B0[0], self.B1[0]))
+        n2 = np.abs(np.inner(self.B0[1], self.B1[1]))
+        n3 = np.abs(np.inner(self.B0[1], self.B1[0]))
+        n4 = np.abs(np.inner(self.B0[0], self.B1[1]))
         # I suppose that 5deg between vectors is sufficient
         threshold = np.cos(5 * 2 * np.pi / 180.0)
 
-- 
2.43.0


From 0c47d608de50dd9a6da429558118fffbce17a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 52/58] fix: LinAlgError for stereo reconstruction with cameras
 sharing a base vector

The matrices that are not used (parallel vectors) can be singular.
---
 src/fluidimage/calibration/calib_direct.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index b309db6..1fbecf0 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -426,10 +426,10 @@ class DirectStereoReconstruction:
             raise ValueError("The two calibrations have to be different.")
 
         # M1, M2: see reconstruction function
-        self.invM0 = np.linalg.inv(np.vstack([self.B0[0:2, :], self.B1[0:1, :]]))
-        self.invM1 = np.linalg.inv(np.vstack([self.B0[0:1, :], self.B1[0:2, :]]))
-        self.invM2 = np.linalg.inv(np.vstack([self.B0[0:2, :], self.B1[1:2, :]]))
-        self.invM3 = np.linalg.inv(np.vstack([self.B0[1:2, :], self.B1[0:2, :]]))
+        self.M0 = np.vstack([self.B0[0:2, :], self.B1[0:1, :]])
+        self.M1 = np.vstack([self.B0[0:1, :], self.B1[0:2, :]])
+        self.M2 = np.vstack([self.B0[0:2, :], self.B1[1:2, :]])
+        self.M3 = np.vstack([self.B0[1:2, :], self.B1[0:2, :]])
 
     def project2cam(
         self,
@@ -598,22 +598,26 @@ class DirectStereoReconstruction:
             dcam[0, :, :] = d0xcam
             dcam[1, :, :] = d0ycam
             dcam[2, :, :] = d1xcam
-            tmp.append(np.tensordot(self.invM0, dcam, axes=([1], [0])))
+            invM0 = np.linalg.inv(self.M0)
+            tmp.append(np.tensordot(invM0, dcam, axes=([1], [0])))
         if n1 < threshold and n4 < threshold:
             dcam[0, :, :] = d0xcam
             dcam[1, :, :] = d1xcam
             dcam[2, :, :] = d1ycam
-            tmp.append(np.tensordot(self.invM1, dcam, axes=([1], [0])))
+            invM1 = np.linalg.inv(self.M1)
+            tmp.append(np.tensordot(invM1, dcam, axes=([1], [0])))
         if n2 < threshold and n4 < threshold:
             dcam[0, :, :] = d0xcam
             dcam[1, :, :] = d0ycam
             dcam[2, :, :] = d1ycam
-            tmp.append(np.tensordot(self.invM2, dcam, axes=([1], [0])))
+            invM2 = np.linalg.inv(self.M2)
+            tmp.append(np.tensordot(invM2, dcam, axes=([1], [0])))
         if n2 < threshold and n3 < threshold:
             dcam[0, :, :] = d0ycam
             dcam[1, :, :] = d1xcam
             dcam[2, :, :] = d1ycam
-            tmp.append(np.tensordot(self.invM3, dcam, axes=([1], [0])))
+            invM3 = np.linalg.inv(self.M3)
+            tmp.append(np.tensordot(invM3, dcam, axes=([1], [0])))
         tmp = np.array(tmp)
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", category=RuntimeWarning)
-- 
2.43.0


From 58f985afe491c82cefbd5adc1386ddb0dd98092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 53/58] fix: NameError with the argument check of
 DirectStereoReconstruction

---
 src/fluidimage/calibration/calib_direct.py | 34 +++++++++++-----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index 1fbecf0..6bb3f48 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -468,25 +468,25 @@ class DirectStereoReconstruction:
             plt.figure()
             plt.quiver(indx0, indy0, dx0, dy0)
             plt.axis("equal")
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.title("Cam 0 in pixel")
             plt.figure()
             plt.quiver(X0[:, 0], X0[:, 1], dX0[:, 0], dX0[:, 1])
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.axis("equal")
             plt.title("Cam 0 in m")
             plt.figure()
             plt.quiver(indx1, indy1, dx1, dy1)
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.axis("equal")
             plt.title("Cam 1 in pixel")
             plt.figure()
             plt.quiver(X1[:, 0], X1[:, 1], dX1[:, 0], dX1[:, 1])
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.axis("equal")
             plt.title("Cam 1 in m")
             plt.show()
@@ -663,21 +663,21 @@ class DirectStereoReconstruction:
 
         if check:
             plt.figure()
-            plt.quiver(self.grid_x, self.grid_y, d0xcam, d0ycam)
-            ax.set_xlabel("X")
-            ax.set_ylabel("Y")
+            plt.quiver(grid_x, grid_y, d0xcam, d0ycam)
+            plt.xlabel("X")
+            plt.ylabel("Y")
             plt.axis("equal")
             plt.title("Cam 0 plane projection")
             plt.figure()
-            plt.quiver(self.grid_x, self.grid_y, d1xcam, d1ycam)
-            ax.set_xlabel("X")
-            ax.set_ylabel("Y")
+            plt.quiver(grid_x, grid_y, d1xcam, d1ycam)
+            plt.xlabel("X")
+            plt.ylabel("Y")
             plt.axis("equal")
             plt.title("Cam 1 plane projection")
             plt.figure()
-            plt.quiver(self.grid_x, self.grid_y, dX, dY)
-            ax.set_xlabel("X")
-            ax.set_ylabel("Y")
+            plt.quiver(grid_x, grid_y, dX, dY)
+            plt.xlabel("X")
+            plt.ylabel("Y")
             plt.axis("equal")
             plt.title("Reconstruction on laser plane")
             plt.show()
-- 
2.43.0


From abdf585e8b70e984a3883eeeb6f5ba82ab534665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 54/58] fix: common grid of stereo reconstruction outside of
 the field of the first camera

---
 src/fluidimage/calibration/calib_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index 6bb3f48..faac3ae 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -507,7 +507,7 @@ class DirectStereoReconstruction:
         xmin = max([xmin0, xmin1])
         xmax = min([xmax0, xmax1])
         ymin = max([ymin0, ymin1])
-        ymax = min([ymax1, ymax1])
+        ymax = min([ymax0, ymax1])
 
         Lx0 = xmax0 - xmin0
         Ly0 = ymax0 - ymin0
-- 
2.43.0


From 9dd5e159b1e4e02615fc117aacc266359947709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 55/58] fix: UVmat instructions in mode series(Dj): subset of
 images never formatted

---
 src/fluidimage/uvmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/uvmat.py b/src/fluidimage/uvmat.py
index 42608b2..ae26dd6 100644
--- a/src/fluidimage/uvmat.py
+++ b/src/fluidimage/uvmat.py
@@ -110,7 +110,7 @@ class ActionBase(ABC):
         elif pair_mode == "series(Dj)":
             if ir.first_i != ir.last_i:
                 raise NotImplementedError("ir.first_i != ir.last_i")
-            str_subset = "{ir.first_i},i:i+2:1"
+            str_subset = f"{ir.first_i},i:i+2:1"
         else:
             raise NotImplementedError(f"{pair_indices.list_pair_mode = }")
 
-- 
2.43.0


From f573c21d52b99e16104905f1ab418d223b8b1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 56/58] fix: LogTopology: no duration for the keys containing
 spaces (name of the files)

---
 src/fluidimage/topologies/log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index e32b754..c1a4e6d 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -7,6 +7,7 @@
 
 """
 
+import re
 import time
 from pathlib import Path
 
@@ -81,7 +82,8 @@ class DataLogFile:
 
                     if ". Launch work " in line:
                         name = words[4]
-                        key = words[5][1:-2]
+                        # the key can contain spaces
+                        key = re.search(r"\((.*)\)\. mem usage: ", line).group(1)
                         t = float(words[0])
                         works.append(
                             {
@@ -109,7 +111,7 @@ class DataLogFile:
                 if line.startswith("work ") and " done in " in line:
                     words = line.split()
                     name = words[1]
-                    key = words[2][1:-1]
+                    key = re.search(r"\((.*)\) done in ", line).group(1)
                     try:
                         duration = float(words[-2])
                     except ValueError:
-- 
2.43.0


From 31344430b49eba4619d603273e18d922edb7d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 57/58] fix: LogTopology: same duration for all executions of a
 global work

---
 src/fluidimage/topologies/log.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index c1a4e6d..f284ba7 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -200,23 +200,20 @@ class LogTopology:
             works_ended_name = [
                 work for work in self.works_ended if work["name"] == name
             ]
-            index_vs_keys = {
-                work["key"]: index for index, work in enumerate(works_ended_name)
-            }
+            # a work can be executed several times with the same key
+            durations_vs_keys = {}
+            for work in works_ended_name:
+                durations_vs_keys.setdefault(work["key"], []).append(
+                    work["duration"]
+                )
 
             durations[name] = []
             for key in keys[name]:
                 try:
-                    index_key = index_vs_keys[key]
-                except KeyError:
-                    founded = False
-                else:
-                    founded = True
-                    work = works_ended_name[index_key]
-                    durations[name].append(work["duration"])
-
-                if not founded:
-                    durations[name].append(np.nan)
+                    duration = durations_vs_keys[key].pop(0)
+                except (KeyError, IndexError):
+                    duration = np.nan
+                durations[name].append(duration)
 
     def plot_memory(self):
         """Plot the memory usage versus time."""
-- 
2.43.0


From 0d875c90c79ef2b97a62e3fd5908e9c2853946f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 58/58] fix: LogTopology: crash when the last line of the log
 is incomplete

---
 src/fluidimage/topologies/log.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index f284ba7..4ce3aa2 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -45,6 +45,10 @@ class DataLogFile:
                 if iline % 100 == 0:
                     print(f"\rparse line {iline}", end="", flush=True)
 
+                if not line.endswith("\n"):
+                    # this line is being written (or the run has been killed)
+                    break
+
                 if line.startswith("ERROR: "):
                     continue
 
-- 
2.43.0

