From e35f2d81ebcc5b0749f6b0cab589b7a206f5aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 01/64] fix: iterate block statistics over rows and columns in
 the right order

The loops of the C extension bounded the row index by the number of columns and
vice versa, which read and wrote out of bounds for non-square images.
---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e89af3d..6401c5d 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -77,8 +77,8 @@ static PyObject
     cout=pymatrix_to_Carrayptrs(matout);
 
     // For each area of size istride x istride, calculate the standard deviation
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u = i; u < i+iblocksize; u++) {
@@ -108,8 +108,8 @@ static PyObject
     }
 
     // Calculate minimum standard deviation for each area
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
             for (u = i; u < (iblocksize/2); u += (istride+1)) {
@@ -170,8 +170,8 @@ static PyObject
     krt_data=pymatrix_to_Carrayptrs(krtout);
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u=i; u<i+iblocksize; u++) {
-- 
2.43.0


From 78019ab3e138277cccf72cde298478f49d10ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 02/64] fix: read strided and non-double arrays correctly in
 block statistics

The C extension assumed C-contiguous double data, but MAD passes the real part of a
complex array, which is a strided view.
---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 6401c5d..518dacd 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -62,6 +62,8 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Make sure that the data is C-contiguous and of type double
+    matin = (PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
     // Get dimensions of input array
     n = dims[0] = matin->dimensions[0];
@@ -134,6 +136,7 @@ static PyObject
     free_Carrayptrs(cin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(matin);
 
     // Return output array
     return PyArray_Return(matout);
@@ -152,6 +155,8 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Make sure that the data is C-contiguous and of type double
+    matin = (PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
 
     // Get dimensions of input array
@@ -224,6 +229,7 @@ static PyObject
     free_Carrayptrs(stdev_data);
     free_Carrayptrs(skw_data);
     free_Carrayptrs(krt_data);
+    Py_DECREF(matin);
 
     // Return output arrays as Python tuple
     return PyTuple_Pack(3, stdevout, skwout, krtout);
-- 
2.43.0


From 0a541d857a7772608fb05c9f0e75eba701e39d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 03/64] fix: release the temporary and result arrays of the
 block statistics

The C extension leaked every array it allocated, so memory grew with each MAD score.
---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 518dacd..d2d6a1c 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -136,6 +136,7 @@ static PyObject
     free_Carrayptrs(cin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(tmp);
     Py_DECREF(matin);
 
     // Return output array
@@ -232,7 +233,8 @@ static PyObject
     Py_DECREF(matin);
 
     // Return output arrays as Python tuple
-    return PyTuple_Pack(3, stdevout, skwout, krtout);
+    // "N" hands the references over to the tuple
+    return Py_BuildValue("(NNN)", stdevout, skwout, krtout);
 }
 
 /*
-- 
2.43.0


From ebf9d2fa02e258022ff40f392f012a6b02533f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:32 +0000
Subject: [PATCH 04/64] fix: assign MAD block statistics to the blocks they
 were calculated for

The loop over the blocks hard-coded an overlap of 0.75 and image sizes that are a
multiple of the stride, and raised an IndexError or misplaced the values otherwise.
---
 src/viqa/fr_metrics/mad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 8443af2..ce233d5 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -646,8 +646,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - STRIDE * 3, STRIDE):
-        for y in range(0, i_org.shape[1] - STRIDE * 3, STRIDE):
+    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
+        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
             mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
             std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
             block_n += 1
-- 
2.43.0


From 29563d4eee5cadc53a6f8c8b4175c600c6d9b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:32 +0000
Subject: [PATCH 05/64] fix: do not modify the weights array passed to MAD

---
 src/viqa/fr_metrics/mad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index ce233d5..a36f490 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -740,7 +740,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     if len(weights) != scales_num:
         raise ValueError(f"weights must be of length scales_num ({scales_num}).")
 
-- 
2.43.0


From 36fe1e43c620053cf2ecc96107d8ceacb4021924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 06/64] fix: reuse batch results only if the region and
 reference layout are the same

Identical consecutive pairs and no-reference results were reused although the pair
had a different region of interest or a reference image of another shape or type.
---
 src/viqa/multiple.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index a516f35..6ae5f5a 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -254,12 +254,23 @@ class BatchMetrics(_MultipleInterface):
         prev_ref_path = None
         modified_img = None
         prev_mod_path = None
+        prev_roi = None
+        prev_layout = None
         metric_results = None
         for pair_num, pair in enumerate(tqdm(self.pairs)):
             reference_path = os.path.join(self.file_dir, pair["reference_image"])
             modified_path = os.path.join(self.file_dir, pair["modified_image"])
+            if self.global_roi is None and self.rois is not None:
+                roi = self.rois[pair_num]
+            # Results can only be reused if the same region was evaluated
+            same_roi = roi == prev_roi
+            prev_roi = roi
             # Skip calculation if the images are the same as in the previous pair
-            if reference_path == prev_ref_path and modified_path == prev_mod_path:
+            if (
+                reference_path == prev_ref_path
+                and modified_path == prev_mod_path
+                and same_roi
+            ):
                 self.results[str(pair_num)] = metric_results
                 warn("Skipping calculation for identical image pair.", UserWarning)
                 continue
@@ -269,16 +280,20 @@ class BatchMetrics(_MultipleInterface):
                 prev_ref_path = reference_path
                 prev_result_reference = None
             else:
-                prev_result_reference = metric_results
+                prev_result_reference = metric_results if same_roi else None
             if modified_path != prev_mod_path:
                 modified_img = load_data(modified_path, **kwargs)
                 prev_mod_path = modified_path
                 prev_result_modified = None
             else:
-                prev_result_modified = metric_results
-
-            if self.global_roi is None and self.rois is not None:
-                roi = self.rois[pair_num]
+                # The modified image is resized to the layout of the reference image
+                prev_result_modified = (
+                    metric_results
+                    if same_roi
+                    and (reference_img.shape, reference_img.dtype) == prev_layout
+                    else None
+                )
+            prev_layout = (reference_img.shape, reference_img.dtype)
 
             metric_results = _calc(
                 self.metrics,
-- 
2.43.0


From 3f41cc39c2089bf86e9d5d4dfdfc62ac25309b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 07/64] fix: normalize integer images without overflow

---
 src/viqa/utils/loading.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ba93da4..eb73430 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -863,6 +863,11 @@ def normalize_data(
             else:
                 img_min = data_range_input[0]
                 img_max = data_range_input[1]
+        # Avoid overflows in integer arithmetic
+        if np.issubdtype(img.dtype, np.integer):
+            img = img.astype(np.float64)
+            img_min = float(img_min)
+            img_max = float(img_max)
         # Normalize numpy array
         img = (
             (img - img_min)
-- 
2.43.0


From ae05a946f5146ea4f9b6a9ecaddcd5774940e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 08/64] fix: allow cropping color images and cropping along
 some axes only

---
 src/viqa/utils/loading.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index eb73430..a9279ab 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -936,23 +936,24 @@ def crop_image(
     img_shape = np.array(img.shape)
 
     if img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3):  # If image is 2D
+        img_shape = img_shape[:2]  # Color channels are not cropped
         crop_shape = np.array((x[1] - x[0], y[1] - y[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
+        if (crop_shape == img_shape).all():  # If image is already cropped
+            warn("Image is already cropped.", RuntimeWarning)
+            img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits in original image
             if z is not None:
                 warn("Image is 2D. Parameter z will be ignored.", RuntimeWarning)
             img_crop = img[x[0] : x[1], y[0] : y[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
-            warn("Image is already cropped.", RuntimeWarning)
-            img_crop = img
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     elif img.ndim == 3 and z is not None:  # If image is 3D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0], z[1] - z[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
-            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
+        if (crop_shape == img_shape).all():  # If image is already cropped
             warn("Image is already cropped.", RuntimeWarning)
             img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits in original image
+            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     else:  # If image is not 2D or 3D
-- 
2.43.0


From 698fcb8b7cb60893a5160f5356b1000ecbe105ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 09/64] fix: do not treat grayscale images with a width of
 three pixels as RGB

---
 src/viqa/utils/loading.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index a9279ab..9b828a2 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -1006,12 +1006,13 @@ def _check_imgs(
 
     if not isinstance(img_r_loaded, list):
         # Check if images are chromatic
-        if chromatic is False and img_r_loaded.shape[-1] == 3:
+        is_rgb = img_r_loaded.ndim == 3 and img_r_loaded.shape[-1] == 3
+        if chromatic is False and is_rgb:
             # Convert to grayscale as backup if falsely claimed to be non-chromatic
             warn("Images are chromatic. Converting to grayscale.")
             img_r_loaded = _to_grayscale(img_r_loaded)
             img_m_loaded = _to_grayscale(img_m_loaded)
-        elif chromatic is True and img_r_loaded.shape[-1] != 3:
+        elif chromatic is True and not is_rgb:
             raise ValueError("Images are not chromatic.")
 
     return img_r_loaded, img_m_loaded
-- 
2.43.0


From 15c60a0a83630f9b760ee1effc0a47d09647e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 10/64] fix: do not clip the luminance of 16 bit color images
 to 255

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f897d97..2b10ed8 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -33,7 +33,7 @@ def _to_grayscale(img):
     """Convert an image to grayscale."""
     img = _to_float(img)
     img_gray = ski.color.rgb2gray(img)
-    img_gray[img_gray > 255] = 255
+    img_gray = np.minimum(img_gray, img.max())  # luminance cannot exceed channels
     return img_gray
 
 
-- 
2.43.0


From bde2bb194e5d6b8d1a4cd7bc688f35956344fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 11/64] fix: set the stabilization constants of UQI to zero

The keyword arguments were misspelled and silently ignored, so that UQI was SSIM with
a uniform window.
---
 src/viqa/fr_metrics/uqi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/uqi.py b/src/viqa/fr_metrics/uqi.py
index 8b567cf..fcd2520 100644
--- a/src/viqa/fr_metrics/uqi.py
+++ b/src/viqa/fr_metrics/uqi.py
@@ -155,8 +155,8 @@ class UQI(FullReferenceMetricsInterface):
             img_r,
             img_m,
             data_range=self.parameters["data_range"],
-            k_1=0,
-            k_2=0,
+            K1=0,
+            K2=0,
             alpha=1,
             beta=1,
             gamma=1,
-- 
2.43.0


From 5b477b59bc99e0bf6d19bafaca1d39e90358e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 12/64] fix: calculate GSM of integer images without overflow

---
 src/viqa/fr_metrics/gsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 85556a0..816010d 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -408,6 +408,10 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
     gradients_r = []
     gradients_m = []
 
+    # Avoid overflows in integer arithmetic
+    img_r = _to_float(img_r)
+    img_m = _to_float(img_m)
+
     if img_r.ndim == 3:
         kernels = KERNELS_3D
     elif img_r.ndim == 2:
-- 
2.43.0


From 442791664a43f61e4923b3152d8b812d899be524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 13/64] fix: do not overwrite the score of metrics when
 exporting results

---
 src/viqa/utils/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index e2d0dd9..7ed0f1d 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -95,10 +95,10 @@ def export_results(metrics, output_path, filename, return_dict=False):
         writer.writerow(["Metric", "Value"])
         for metric in metrics:
             if metric.score_val is None:
-                metric.score_val = "n/a"
+                results_dict[metric._name] = "n/a"
             else:
                 writer.writerow([metric._name, metric.score_val])
-            results_dict[metric._name] = metric.score_val
+                results_dict[metric._name] = metric.score_val
     if return_dict:
         return results_dict
 
-- 
2.43.0


From b522ba6dd137414195bac2e66aee7ee4fcec927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 14/64] fix: store the histogram of integer images

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 9b828a2..3085c76 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -218,7 +218,7 @@ class ImageArray(np.ndarray):
         self.skewness = skew(self.view(), axis=None)
         self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
-            self.view().histogram = np.histogram(
+            self.histogram = np.histogram(
                 self.view(), bins=np.iinfo(self.view().dtype).max
             )
         else:
-- 
2.43.0


From e1233b5aa3f71904429fd40b019adfe565429098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 15/64] fix: create cubic regions of color images

The mask already has the color channels and was repeated once more, which raised a
MaskError for every color image.
---
 src/viqa/utils/misc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 2b10ed8..9fcf98d 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -621,10 +621,7 @@ def _to_cubic(img, center, radius):
         mask[
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
-        ] = 1
-
-        if img.ndim == 3:  # 2D color image
-            mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
+        ] = 1  # all channels are set for 2D color images
     elif img.ndim == 3 and img.shape[-1] > 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
-- 
2.43.0


From eeea4ae845534449484e2c70dd0b41f5684f3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 16/64] fix: multiply the YUV matrix with the RGB vector and
 not vice versa

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 9fcf98d..bde722b 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -46,7 +46,7 @@ def _rgb_to_yuv(img):
             [0.615, -0.55861, -0.05639],
         ]
     )
-    img_yuv = img @ weights
+    img_yuv = img @ weights.T
     return img_yuv
 
 
-- 
2.43.0


From 0fe74f4514a2a0138267d159a4d9742ac31ab0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 17/64] fix: return the SNR score value as documented

A tuple of the value and a parameter dictionary was returned and stored as score,
which broke printing, comparing, exporting and the SNR of RGB images.
---
 src/viqa/nr_metrics/snr.py | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b54718..78ddc73 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1098,27 +1098,4 @@ def signal_to_noise_ratio(
     else:
         snr_val = np.mean(signal) / np.std(signal)
 
-    parameters = {}
-    match region_type:
-        case "full" if auto_center:
-            parameters.update(
-                {
-                    "iterations": iterations,
-                    "lower_threshold": lower_threshold,
-                    "upper_threshold": upper_threshold,
-                }
-            )
-        case "full" if not auto_center:
-            region_type = "original"
-        case "original":
-            pass
-        case _:
-            parameters.update(
-                {
-                    "signal_center": signal_center,
-                    "radius": radius,
-                }
-            )
-    parameters.update({"region_type": region_type, "signal": signal})
-
-    return np.float64(snr_val), parameters
+    return np.float64(snr_val)
-- 
2.43.0


From 409aec89f6e6ed33c06fe6e3157c222c30cdd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 18/64] fix: set the name of the SNR metric

SNR could not be used with several metrics or exported, because its name was None.
---
 src/viqa/nr_metrics/snr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 78ddc73..0cb812f 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -106,6 +106,7 @@ class SNR(NoReferenceMetricsInterface):
         super().__init__(
             data_range=data_range, normalize=normalize, name=name, **kwargs
         )
+        self._name = name
 
     def score(self, img, **kwargs):
         """Calculate the signal-to-noise ratio (SNR) for an image.
-- 
2.43.0


From 3f52b441263e23e3561ee1099faeae9079f8759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:17 +0000
Subject: [PATCH 19/64] fix: calculate volume scores over the slices of the
 given dimension

FSIM, MS-SSIM, VIFp and VSI always used the slices of the last dimension and accepted
invalid dimensions.
---
 src/viqa/fr_metrics/fsim.py   | 7 +++++--
 src/viqa/fr_metrics/msssim.py | 7 +++++--
 src/viqa/fr_metrics/vif.py    | 7 +++++--
 src/viqa/fr_metrics/vsi.py    | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 7809db6..9eb10ef 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -242,9 +242,12 @@ class FSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating FSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
+                # Slices are expected along the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = fsim(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index ae20403..7fa3d2c 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -245,9 +245,12 @@ class MSSSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating MS-SSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
+                # Slices are expected along the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = multi_scale_ssim(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index c2e1b42..1a5fd01 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -218,9 +218,12 @@ class VIFp(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VIFp for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
+                # Slices are expected along the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vif_p(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index c862272..8863310 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -239,9 +239,12 @@ class VSI(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VSI for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
+                # Slices are expected along the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vsi(
-- 
2.43.0


From 6c9a05b711591137b29d132b2be8f27a4d766dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:39 +0000
Subject: [PATCH 20/64] fix: reject SNR and CNR regions that exceed the upper
 image borders

Only the lower borders were checked, so that the regions were silently cut off.
---
 src/viqa/nr_metrics/cnr.py | 7 +++++++
 src/viqa/nr_metrics/snr.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 430095f..61cdbd1 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -818,6 +818,13 @@ def contrast_to_noise_ratio(
     if img.ndim != len(signal_center) or img.ndim != len(background_center):
         raise ValueError("Centers have to be in the same dimension as img.")
 
+    # Check the upper borders, too
+    for center in (signal_center, background_center):
+        if any(c + radius > size for c, size in zip(center, img.shape, strict=True)):
+            raise ValueError(
+                "Center has to be at least the radius away from the border."
+            )
+
     # Define regions
     if region_type in {"full", "original"}:
         if not auto_center:
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 0cb812f..a6f4afc 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1038,6 +1038,13 @@ def signal_to_noise_ratio(
         if img.ndim != len(signal_center):
             raise ValueError("Center has to be in the same dimension as img.")
 
+    # Check the upper borders, too
+    for center, size in zip(signal_center, img.shape, strict=False):
+        if center + radius > size:
+            raise ValueError(
+                "Center has to be at least the radius away from the border."
+            )
+
     # Color images
     if img.ndim == 3 and (img.shape[-1] == 3):  # 2D RGB image
         if yuv:
-- 
2.43.0


From 74055190dc522d893415278078c0c010bf3b557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:39 +0000
Subject: [PATCH 21/64] fix: calculate VSI of color images

---
 src/viqa/fr_metrics/vsi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 8863310..4222ebb 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -186,7 +186,7 @@ class VSI(FullReferenceMetricsInterface):
         """
         img_r, img_m = self.load_images(img_r, img_m)
 
-        if img_r.ndim == 3:
+        if img_r.ndim == 3 and img_r.shape[-1] != 3:
             if (
                 dim is not None and type(im_slice) is int
             ):  # if dim and im_slice are given
@@ -259,7 +259,7 @@ class VSI(FullReferenceMetricsInterface):
                 raise ValueError(
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
-        elif img_r.ndim == 2:
+        elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
             if dim or im_slice:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
-- 
2.43.0


From c414044a6f432b8d5a14f113ea846dfdef2d5257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 22/64] fix: visualize the regions for CNR without a given
 region type

The visualization methods of CNR never passed the required region type.
---
 src/viqa/utils/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6af9c00..567da92 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -46,7 +46,7 @@ def _visualize_cnr_2d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
@@ -127,7 +127,7 @@ def _visualize_cnr_3d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
-- 
2.43.0


From bbfb044e94cbdd0db48fab0eb7f7eab7356abead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 23/64] fix: keep rows of non-square volumes intact in CLI
 scripts

---
 src/scripts/crop_image.py         | 2 +-
 src/scripts/reduce_projections.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 967a369..24518cc 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -46,7 +46,7 @@ def load_volume(file, size, bitdepth):
     slices = []
     for i in range(size[2]):
         slice = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        slice = slice.reshape(size[0], size[1])
+        slice = slice.reshape(size[1], size[0])
         slices.append(slice)
     return np.stack(slices, axis=0)
 
diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index bf41956..9d70a47 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -45,7 +45,7 @@ def load_projection(file, size, bitdepth):
     projections = []
     for i in range(size[2]):
         projection = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        projection = projection.reshape(size[0], size[1])
+        projection = projection.reshape(size[1], size[0])
         projections.append(projection)
     return projections
 
-- 
2.43.0


From 5b33d49bf6dce1b5a96d6dd012b16e8d12d08be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 24/64] fix: read mhd headers that do not end with a newline

The last header line was dropped unconditionally and the file was never closed.
---
 src/viqa/utils/loading.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 3085c76..a040fe9 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -429,13 +429,13 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
     """
     file_path = os.path.join(file_dir, file_name)  # Complete file path
 
-    f = open(file=file_path)  # Open header file
-
-    file_header_txt = f.read().split("\n")  # Extract header lines
+    with open(file=file_path) as f:  # Open header file
+        file_header_txt = f.read().splitlines()  # Extract header lines
     # Create dictionary from lines
     file_header = {
         key: value
-        for line in file_header_txt[0:-1]
+        for line in file_header_txt
+        if line
         for key, value in [line.split(" = ")]
     }
 
-- 
2.43.0


From 84ee1951c1169b81d3ffd34731337443f43ad575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:36 +0000
Subject: [PATCH 25/64] fix: use the eroded region for automatic SNR and CNR
 with full regions

The mask of the detected region was ignored, so that its border was included.
---
 src/viqa/nr_metrics/cnr.py | 2 ++
 src/viqa/nr_metrics/snr.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 61cdbd1..0b27c3c 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -787,6 +787,8 @@ def contrast_to_noise_ratio(
             "sphere",
             "circle",
         }:
+            signal_region = np.ma.filled(signal_region, False)
+            background_region = np.ma.filled(background_region, False)
             signal = np.ma.array(img, mask=~signal_region, copy=True)
             background = np.ma.array(img, mask=~background_region, copy=True)
         elif region_type == "original":
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index a6f4afc..d866781 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1014,6 +1014,7 @@ def signal_to_noise_ratio(
             "sphere",
             "circle",
         }:
+            signal_region = np.ma.filled(signal_region, False)
             signal = np.ma.array(img, mask=~signal_region, copy=True)
         elif region_type == "original":
             signal = img
-- 
2.43.0


From 4cf7fd1ef997c9de18d74ba6e28d30279067db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 26/64] fix: reject comparison images with several axes at the
 same slice number

---
 src/viqa/utils/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 7ed0f1d..be326ec 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -229,7 +229,7 @@ def export_image(
     elif img_r.ndim == 3:
         if {x, y, z} == {None}:
             raise ValueError("One axis must be specified")
-        if len({x, y, z} - {None}) != 1:
+        if sum(axis is not None for axis in (x, y, z)) != 1:
             raise ValueError("Only one axis can be specified")
 
         # For 3D images, plot the specified area
-- 
2.43.0


From a1c0c2cacd829af6fa188107c15b184765871ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 27/64] fix: reject an empty list of regions for a batch with
 pairs

---
 src/viqa/multiple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 6ae5f5a..e44ce79 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -205,7 +205,7 @@ class BatchMetrics(_MultipleInterface):
         self.file_dir = file_dir
         self.pairs_file = pairs_file
         self.pairs = _read_pairs(self.pairs_file)
-        if rois and len(self.pairs) != len(rois):
+        if rois is not None and len(self.pairs) != len(rois):
             raise ValueError(
                 "The number of pairs and ROIs must be equal. "
                 f"Got {len(self.pairs)} pairs and {len(rois)} ROIs."
-- 
2.43.0


From 12de04ea9e41de9e4fc2dc3354a51407b4d3e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:49 +0000
Subject: [PATCH 28/64] fix: raise the documented error for pairs files with a
 single column

---
 src/viqa/multiple.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index e44ce79..f1d880a 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -667,7 +667,13 @@ class MultipleMetrics(_MultipleInterface):
 
 def _read_pairs(file_path):
     with open(file_path, newline="") as file:
-        dialect = csv.Sniffer().sniff(file.readline(), ",;\t")
+        try:
+            dialect = csv.Sniffer().sniff(file.readline(), ",;\t")
+        except csv.Error as err:  # No delimiter found, e.g. only one column
+            raise ValueError(
+                "CSV file must contain the columns 'reference_image' and "
+                "'modified_image'."
+            ) from err
         file.seek(0)
         reader = csv.DictReader(file, dialect=dialect)
         if (
-- 
2.43.0


From b1b1f928a579ef9fc2f1c3c608933ad56ecad0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:51 +0000
Subject: [PATCH 29/64] fix: read quoted file names that contain quotes in
 pairs files

---
 src/viqa/multiple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index f1d880a..5df6183 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -674,6 +674,8 @@ def _read_pairs(file_path):
                 "CSV file must contain the columns 'reference_image' and "
                 "'modified_image'."
             ) from err
+        # The header alone does not show how quotes in the rows are escaped
+        dialect.doublequote = True
         file.seek(0)
         reader = csv.DictReader(file, dialect=dialect)
         if (
-- 
2.43.0


From 9ef910342d44246b0b6002efc0ffb3f491d634d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:21 +0000
Subject: [PATCH 30/64] fix: normalize half precision images without overflow

---
 src/viqa/utils/loading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index a040fe9..0e5933b 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -863,8 +863,8 @@ def normalize_data(
             else:
                 img_min = data_range_input[0]
                 img_max = data_range_input[1]
-        # Avoid overflows in integer arithmetic
-        if np.issubdtype(img.dtype, np.integer):
+        # Avoid overflows in integer and half precision arithmetic
+        if np.issubdtype(img.dtype, np.integer) or img.dtype == np.float16:
             img = img.astype(np.float64)
             img_min = float(img_min)
             img_max = float(img_max)
-- 
2.43.0


From 742a9c1cd093fe64880afe03e9e11a89a3ef2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:56 +0000
Subject: [PATCH 31/64] fix: score flipped views of float images with tensor
 based metrics

---
 src/viqa/utils/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index bde722b..c909b2e 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -419,8 +419,9 @@ def gabor_convolve(
 
 def _check_chromatic(img_r, img_m, chromatic):
     """Permute image based on dimensions and chromaticity."""
-    img_r = _to_float(img_r, np.float32)
-    img_m = _to_float(img_m, np.float32)
+    # torch does not support negative strides
+    img_r = np.ascontiguousarray(_to_float(img_r, np.float32))
+    img_m = np.ascontiguousarray(_to_float(img_m, np.float32))
     # check if chromatic
     if chromatic is False:
         if img_r.ndim == 3:
-- 
2.43.0


From d7496583542298d8561f4188e897008ca8897f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:48 +0000
Subject: [PATCH 32/64] fix: calculate SNR and CNR of half precision images
 without overflow

---
 src/viqa/nr_metrics/cnr.py | 2 ++
 src/viqa/nr_metrics/snr.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 0b27c3c..7e22be6 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -755,6 +755,8 @@ def contrast_to_noise_ratio(
         https://doi.org/10.1117/12.844640
     """
     img = load_data(img, **kwargs)
+    if img.dtype == np.float16:
+        img = img.astype(np.float32)  # Avoid overflows in half precision arithmetic
 
     if auto_center is True:
         warn(
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index d866781..79dddd7 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -985,6 +985,8 @@ def signal_to_noise_ratio(
     .. [2] https://www.imatest.com/docs/color-tone-esfriso-noise/#chromanoise
     """
     img = load_data(img, **kwargs)
+    if img.dtype == np.float16:
+        img = img.astype(np.float32)  # Avoid overflows in half precision arithmetic
 
     # Auto detect center
     if auto_center is True:
-- 
2.43.0


From b6e46db908234b83946f4a3329a49f057ac0d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:53 +0000
Subject: [PATCH 33/64] fix: reject binary files with an incomplete element at
 the end

---
 src/viqa/utils/loading.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 0e5933b..d3e7a35 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -596,7 +596,9 @@ def _load_binary(data_file_path, data_type, dim_size):
             file=f, dtype=data_type
         )  # Read data file into numpy array according to data type
 
-    if img_arr_orig.size != np.prod(np.array(dim_size).astype(np.int64)):
+    # Compare bytes, incomplete elements at the end of the file are not read
+    expected_size = np.prod(np.array(dim_size).astype(np.int64)) * img_arr_orig.itemsize
+    if os.path.getsize(data_file_path) != expected_size:
         raise ValueError(
             "Size of data file ("
             + data_file_path
-- 
2.43.0


From 309a3e5460ae49b12bef4a20e40e37b214a13e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:42 +0000
Subject: [PATCH 34/64] fix: do not normalize the region of interest again over
 several metrics

---
 src/viqa/multiple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 5df6183..fd02486 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -705,7 +705,8 @@ def _calc(metrics, metrics_parameters, img_r, img_m, **kwargs):
         img_r = crop_image(img_r, *roi)
         img_m = crop_image(img_m, *roi)
 
-    img_r, img_m = _check_imgs(img_r, img_m, **kwargs)
+    # Images are already normalized, regions must not be normalized again
+    img_r, img_m = _check_imgs(img_r, img_m)
 
     metric_results = {}
     for metric, parameters in tqdm(
-- 
2.43.0


From 78a0ff2ed8c08e0b5f5b786925276f00bab8695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:15 +0000
Subject: [PATCH 35/64] fix: calculate GSM of flat images and of images with
 falling gradients only

---
 src/viqa/fr_metrics/gsm.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 816010d..4658689 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -432,11 +432,15 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
 
     img_r_gradient = _to_float(img_r_gradient)
     img_m_gradient = _to_float(img_m_gradient)
-    k = c / max(np.max(img_r_gradient), np.max(img_m_gradient))
-    r = np.abs(img_r_gradient - img_m_gradient) / max(
-        img_r_gradient, img_m_gradient, key=_mean_of_abs
-    )
-    con_struc_sim = ((2 * (1 - r)) + k) / (1 + (1 - r) ** 2 + k)
+    max_gradient = max(np.max(np.abs(img_r_gradient)), np.max(np.abs(img_m_gradient)))
+    if max_gradient == 0:  # images without gradients have the same structure
+        con_struc_sim = np.ones_like(img_r_gradient)
+    else:
+        k = c / max_gradient
+        r = np.abs(img_r_gradient - img_m_gradient) / max(
+            img_r_gradient, img_m_gradient, key=_mean_of_abs
+        )
+        con_struc_sim = ((2 * (1 - r)) + k) / (1 + (1 - r) ** 2 + k)
     lum_sim = 1 - ((img_r - img_m) / data_range) ** 2
     weight = p * con_struc_sim
     quality = (1 - weight) * con_struc_sim + weight * lum_sim
-- 
2.43.0


From 11e4e0f95a9edafae5b185686f7e77940d49d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:30 +0000
Subject: [PATCH 36/64] fix: reject SNR and CNR regions with negative centers

---
 src/viqa/nr_metrics/cnr.py | 4 ++--
 src/viqa/nr_metrics/snr.py | 2 +-
 src/viqa/utils/misc.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 7e22be6..1ea0389 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -802,7 +802,7 @@ def contrast_to_noise_ratio(
     for center in signal_center:
         if not isinstance(center, int):
             raise TypeError("Signal center has to be a tuple of integers.")
-        if abs(center) - radius < 0:  # check if center is too close to the border
+        if center - radius < 0:  # check if center is too close to the border
             raise ValueError(
                 "Signal center has to be at least the radius away from the border."
             )
@@ -810,7 +810,7 @@ def contrast_to_noise_ratio(
     for center in background_center:
         if not isinstance(center, int):
             raise TypeError("Background center has to be a tuple of integers.")
-        if abs(center) - radius < 0:
+        if center - radius < 0:
             raise ValueError(
                 "Background center has to be at least the radius away from the border."
             )
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 79dddd7..08c06d2 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1025,7 +1025,7 @@ def signal_to_noise_ratio(
     for center in signal_center:
         if not isinstance(center, int):
             raise TypeError("Center has to be a tuple of integers.")
-        if abs(center) - radius < 0:  # check if center is too close to the border
+        if center - radius < 0:  # check if center is too close to the border
             raise ValueError(
                 "Center has to be at least the radius away from the border."
             )
diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index c909b2e..a72520b 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -444,7 +444,7 @@ def _check_border_too_close(center, radius):
     for center_coordinate in center:
         if not isinstance(center_coordinate, int):
             raise TypeError("Center has to be a tuple of integers.")
-        if abs(center_coordinate) - radius < 0:
+        if center_coordinate - radius < 0:
             raise ValueError(
                 "Center has to be at least the radius away from the border."
             )
-- 
2.43.0


From 99ffa0c033804a82f222ee1a6cb145fb3c553e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:30 +0000
Subject: [PATCH 37/64] fix: use the given radius or center of SNR and CNR if
 the other one is remembered

---
 src/viqa/nr_metrics/cnr.py | 9 +++++----
 src/viqa/nr_metrics/snr.py | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 1ea0389..efd3a1e 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -126,13 +126,14 @@ class CNR(NoReferenceMetricsInterface):
         # check if signal_center, background_center and radius are provided
         if not {"signal_center", "background_center", "radius"}.issubset(kwargs):
             if not {"signal_center", "background_center", "radius"}.issubset(
-                self.parameters.keys()
+                {**self.parameters, **kwargs}
             ):
                 raise ValueError("No center or radius provided.")
 
-            kwargs["signal_center"] = self.parameters["signal_center"]
-            kwargs["background_center"] = self.parameters["background_center"]
-            kwargs["radius"] = self.parameters["radius"]
+            # Use the remembered values only for what is not given
+            for key in ("signal_center", "background_center", "radius"):
+                if key not in kwargs:
+                    kwargs[key] = self.parameters[key]
 
         # write kwargs to .parameters attribute
         self.parameters.update(kwargs)
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 08c06d2..05bfa0f 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -132,11 +132,13 @@ class SNR(NoReferenceMetricsInterface):
 
         # check if signal_center and radius are provided
         if not {"signal_center", "radius"}.issubset(kwargs):
-            if not {"signal_center", "radius"}.issubset(self.parameters.keys()):
+            if not {"signal_center", "radius"}.issubset({**self.parameters, **kwargs}):
                 raise ValueError("No center or radius provided.")
 
-            kwargs["signal_center"] = self.parameters["signal_center"]
-            kwargs["radius"] = self.parameters["radius"]
+            # Use the remembered values only for what is not given
+            for key in ("signal_center", "radius"):
+                if key not in kwargs:
+                    kwargs[key] = self.parameters[key]
 
         # TODO: Write standard params of signal to noise ratio to .parameters attribute
         #  if not already done
-- 
2.43.0


From 1ad16e42a08934245cf9314ad94d711dc1c7014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:55 +0000
Subject: [PATCH 38/64] fix: accept centers in grayscale images with a width of
 three pixels

---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index efd3a1e..69aa719 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -221,7 +221,7 @@ class CNR(NoReferenceMetricsInterface):
             radius = self.parameters["radius"]
 
         # Check if img and signal_center have the same dimension
-        if img.shape[-1] == 3:
+        if img.ndim == 3 and img.shape[-1] == 3:
             if (
                 img.ndim != len(signal_center) + 1
                 or img.ndim != len(background_center) + 1
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 05bfa0f..aee1942 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -259,7 +259,7 @@ class SNR(NoReferenceMetricsInterface):
                     raise ValueError("No radius provided.")
 
             # Check if img and signal_center have the same dimension
-            if img.shape[-1] == 3:
+            if img.ndim == 3 and img.shape[-1] == 3:
                 if img.ndim != len(signal_center) + 1:
                     raise ValueError("Center has to be in the same dimension as img.")
             else:
@@ -1036,7 +1036,7 @@ def signal_to_noise_ratio(
         raise TypeError("Radius has to be a positive integer.")
 
     # Check if img and signal_center have the same dimension
-    if img.shape[-1] == 3:
+    if img.ndim == 3 and img.shape[-1] == 3:
         if img.ndim != len(signal_center) + 1:
             raise ValueError("Center has to be in the same dimension as img.")
     else:
-- 
2.43.0


From 210b2f3be218314d9e2e19a65c7676fed548733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:55 +0000
Subject: [PATCH 39/64] fix: accept regions of volumes with less than three
 slices

---
 src/viqa/utils/misc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index a72520b..351f7ae 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -483,7 +483,7 @@ def _get_binary(img, lower_threshold, upper_threshold, show=False):
     if show:
         if img.ndim == 2:  # 2D image
             visualize_2d(binary_image)
-        elif img.ndim == 3 and img.shape[-1] > 3:  # 3D image
+        elif img.ndim == 3:  # 3D image
             visualize_3d(binary_image, [img.shape[dim] // 2 for dim in range(3)])
         else:
             raise ValueError("Image must be 2D or 3D to visualize.")
@@ -552,7 +552,7 @@ def find_largest_region(img, iterations=5, region_type="cubic"):
         struct = struct_2d
     elif img.ndim == 3 and img.shape[-1] == 3:  # 2D color image
         struct = struct_2d
-    elif img.ndim == 3 and img.shape[-1] > 3:  # 3D image
+    elif img.ndim == 3:  # 3D image
         struct = struct_3d
     else:
         raise ValueError("Image must be 2D or 3D.")
@@ -598,7 +598,7 @@ def _to_spherical(img, center, radius):
 
         if img.ndim == 3:  # 2D color image
             mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
-    elif img.ndim == 3 and img.shape[-1] > 3:
+    elif img.ndim == 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
         x, y, z = np.ogrid[
@@ -623,7 +623,7 @@ def _to_cubic(img, center, radius):
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
         ] = 1  # all channels are set for 2D color images
-    elif img.ndim == 3 and img.shape[-1] > 3:
+    elif img.ndim == 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
         mask[
-- 
2.43.0


From 5e5540c024773cbcb431911a81998b71b99ff101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:01 +0000
Subject: [PATCH 40/64] fix: score automatically detected regions of color
 images

---
 src/viqa/nr_metrics/snr.py | 69 ++++++++++++--------------------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index aee1942..4b17ee5 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1008,21 +1008,6 @@ def signal_to_noise_ratio(
             img=binary_foreground, region_type=region_type, iterations=iterations
         )
 
-        # Mask the original image with the regions
-        if region_type not in {
-            "original",
-            "cubic",
-            "cube",
-            "square",
-            "spherical",
-            "sphere",
-            "circle",
-        }:
-            signal_region = np.ma.filled(signal_region, False)
-            signal = np.ma.array(img, mask=~signal_region, copy=True)
-        elif region_type == "original":
-            signal = img
-
     # Check if signal_center is a tuple of integers and radius is an integer
     for center in signal_center:
         if not isinstance(center, int):
@@ -1050,22 +1035,29 @@ def signal_to_noise_ratio(
                 "Center has to be at least the radius away from the border."
             )
 
+    def _get_signal(img):
+        # Define region
+        if region_type == "original" or (region_type == "full" and not auto_center):
+            return img
+        elif region_type in {"cubic", "cube", "square"}:
+            return _to_cubic(img, signal_center, radius)
+        elif region_type in {"spherical", "sphere", "circle"}:
+            return _to_spherical(img, signal_center, radius)
+        elif auto_center:
+            # Mask the image with the detected region (all channels of color images)
+            region = np.ma.filled(signal_region, False)
+            if img.ndim > region.ndim:
+                region = np.repeat(region[..., np.newaxis], img.shape[-1], axis=-1)
+            return np.ma.array(img, mask=~region, copy=True)
+        else:
+            raise ValueError("Region type not valid.")
+
     # Color images
     if img.ndim == 3 and (img.shape[-1] == 3):  # 2D RGB image
         if yuv:
             img = _rgb_to_yuv(img)
 
-        # Define region
-        if region_type in {"full", "original"}:
-            if not auto_center:
-                signal = img
-        elif region_type in {"cubic", "cube", "square"}:
-            signal = _to_cubic(img, signal_center, radius)
-        elif region_type in {"spherical", "sphere", "circle"}:
-            signal = _to_spherical(img, signal_center, radius)
-        else:
-            if not auto_center:
-                raise ValueError("Region type not valid.")
+        signal = _get_signal(img)
 
         sdev = np.std(signal, axis=(0, 1))
 
@@ -1076,16 +1068,9 @@ def signal_to_noise_ratio(
             ]
             return snr_val[0], snr_val[1], snr_val[2]
         else:
-            snr_lum = np.float64(
-                signal_to_noise_ratio(
-                    _to_grayscale(img),
-                    signal_center,
-                    radius,
-                    region_type,
-                    auto_center=False,
-                    yuv=False,
-                )
-            )
+            signal_lum = _get_signal(_to_grayscale(img))
+            sdev_lum = np.std(signal_lum)
+            snr_lum = np.float64(np.mean(signal_lum) / sdev_lum if sdev_lum != 0 else 0)
             snr_val = [
                 np.float64(np.mean(signal[..., i]) / sdev[i]) if sdev[i] != 0 else 0
                 for i in range(3)
@@ -1093,17 +1078,7 @@ def signal_to_noise_ratio(
 
         return snr_lum, snr_val[0], snr_val[1], snr_val[2]
 
-    # Define region
-    if region_type in {"full", "original"}:
-        if not auto_center:
-            signal = img
-    elif region_type in {"cubic", "cube", "square"}:
-        signal = _to_cubic(img, signal_center, radius)
-    elif region_type in {"spherical", "sphere", "circle"}:
-        signal = _to_spherical(img, signal_center, radius)
-    else:
-        if not auto_center:
-            raise ValueError("Region type not valid.")
+    signal = _get_signal(img)
 
     # Calculate SNR
     if np.std(signal) == 0:
-- 
2.43.0


From 1097a706b4325ce0f71faf09e296721866f5e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 41/64] fix: accept image masks as where argument of ufuncs on
 images

---
 src/viqa/utils/loading.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index d3e7a35..4119a7c 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -177,6 +177,8 @@ class ImageArray(np.ndarray):
             )
         else:
             outputs = (None,) * ufunc.nout
+        if isinstance(kwargs.get("where"), ImageArray):
+            kwargs["where"] = kwargs["where"].view(np.ndarray)
         # call numpys implementation of __array_ufunc__
         results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
         if results is NotImplemented:
-- 
2.43.0


From 3537869fe51f54bfd4890cdb271f87b268a4dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 42/64] fix: show the scored region in the 2D visualizations of
 SNR and CNR

---
 src/viqa/utils/visualization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 567da92..2d8104f 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -56,7 +56,8 @@ def _visualize_cnr_2d(
 
     fig, axs = plt.subplots(1, 2, figsize=figsize, dpi=dpi)
     fig.suptitle("Regions for CNR Calculation", y=0.92)
-    axs[0].imshow(img, cmap="gray")
+    # The first axis of the image is shown as x, like for 3D images
+    axs[0].imshow(img.T, cmap="gray")
     axs[0].set_title("Background")
     axs[0].set_xlabel("x")
     axs[0].set_ylabel("y")
@@ -86,7 +87,7 @@ def _visualize_cnr_2d(
     if patch_1:
         axs[0].add_patch(patch_1)
 
-    axs[1].imshow(img[..., ::-1], cmap="gray")
+    axs[1].imshow(img.T, cmap="gray")
     axs[1].set_title("Signal")
     axs[1].set_xlabel("x")
     axs[1].set_ylabel("y")
@@ -372,10 +373,11 @@ def _visualize_snr_2d(
     fig, ax = plt.subplots(1, 1, figsize=figsize, dpi=dpi)
     fig.suptitle("Signal Region for SNR Calculation", y=0.92)
 
-    ax.imshow(img[..., ::-1], cmap="gray")
+    # The first axis of the image is shown as x, like for 3D images
+    ax.imshow(img.T, cmap="gray")
 
     if region_type == "full":
-        ax.imshow(signal, cmap="viridis", alpha=0.5)
+        ax.imshow(signal.T, cmap="viridis", alpha=0.5)
 
     ax.set_xlabel("x")
     ax.set_ylabel("y")
-- 
2.43.0


From 35e6be676ab7de5e8c4a5ca5b07bc4bfa36a0d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 43/64] fix: reject slices one beyond the volume in
 visualize_3d

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 2d8104f..4c577ef 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -676,7 +676,7 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     if img.ndim != 3:
         raise ValueError("The image must be 3D.")
     if not all(
-        -img.shape[i] <= slice_ <= img.shape[i] for i, slice_ in enumerate(slices)
+        -img.shape[i] <= slice_ < img.shape[i] for i, slice_ in enumerate(slices)
     ):
         raise ValueError("The slices are out of bounds.")
 
-- 
2.43.0


From ec4880ac3e12dca8ec687e43243caabe15acb639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 44/64] fix: visualize the given or remembered region of SNR
 after a calculated one

---
 src/viqa/nr_metrics/snr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 4b17ee5..cda6cd2 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -236,13 +236,13 @@ class SNR(NoReferenceMetricsInterface):
                 region_type = self.parameters["region_type"]
             except KeyError:
                 raise ValueError("No region type provided.") from None
-        if not signal:
+        if signal is None:
             try:
                 signal = self._region
             except AttributeError:
                 signal = None
 
-        if signal is None and region_type not in {"full", "original"}:
+        if region_type not in {"full", "original"}:
             if not signal_center:
                 try:
                     signal_center = self.parameters["signal_center"]
-- 
2.43.0


From 2c5b4ae2b0e2e76c40ba9f05425c004dd62591a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:36 +0000
Subject: [PATCH 45/64] fix: let the sliders of SNR and CNR reach every valid
 region and follow the radius in 2D

---
 src/viqa/nr_metrics/cnr.py | 48 +++++++++++++++++++-------------------
 src/viqa/nr_metrics/snr.py | 28 +++++++++++-----------
 2 files changed, 37 insertions(+), 39 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 69aa719..b8511a3 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -462,38 +462,38 @@ class CNR(NoReferenceMetricsInterface):
 
         # Create sliders for background center coordinates
         slider_background_center_x = _create_slider_widget(
-            min=slider_radius.value + 1,
-            max=img.shape[0] - (slider_radius.value + 1),
+            min=slider_radius.value,
+            max=img.shape[0] - slider_radius.value,
             value=background_start[0],
         )
         slider_background_center_y = _create_slider_widget(
-            min=slider_radius.value + 1,
-            max=img.shape[1] - (slider_radius.value + 1),
+            min=slider_radius.value,
+            max=img.shape[1] - slider_radius.value,
             value=background_start[1],
         )
 
         # Create sliders for signal center coordinates
         slider_signal_center_x = _create_slider_widget(
-            min=slider_radius.value + 1,
-            max=img.shape[0] - (slider_radius.value + 1),
+            min=slider_radius.value,
+            max=img.shape[0] - slider_radius.value,
             value=signal_start[0],
         )
         slider_signal_center_y = _create_slider_widget(
-            min=slider_radius.value + 1,
-            max=img.shape[1] - (slider_radius.value + 1),
+            min=slider_radius.value,
+            max=img.shape[1] - slider_radius.value,
             value=signal_start[1],
         )
 
         if img.ndim == 3 and img.shape[-1] != 3:
             # Add widgets for z coordinate
             slider_background_center_z = _create_slider_widget(
-                min=slider_radius.value + 1,
-                max=img.shape[2] - (slider_radius.value + 1),
+                min=slider_radius.value,
+                max=img.shape[2] - slider_radius.value,
                 value=background_start[2],
             )
             slider_signal_center_z = _create_slider_widget(
-                min=slider_radius.value + 1,
-                max=img.shape[2] - (slider_radius.value + 1),
+                min=slider_radius.value,
+                max=img.shape[2] - slider_radius.value,
                 value=signal_start[2],
             )
             slider_background_center_z.style = {"handle_color": "#2c7bb6"}
@@ -501,19 +501,19 @@ class CNR(NoReferenceMetricsInterface):
 
         # Update min and max values of sliders dynamically
         def _update_values(change):
-            slider_background_center_x.min = change.new + 1
-            slider_background_center_x.max = img.shape[0] - (change.new + 1)
-            slider_background_center_y.min = change.new + 1
-            slider_background_center_y.max = img.shape[1] - (change.new + 1)
-            slider_signal_center_x.min = change.new + 1
-            slider_signal_center_x.max = img.shape[0] - (change.new + 1)
-            slider_signal_center_y.min = change.new + 1
-            slider_signal_center_y.max = img.shape[1] - (change.new + 1)
+            slider_background_center_x.min = change.new
+            slider_background_center_x.max = img.shape[0] - change.new
+            slider_background_center_y.min = change.new
+            slider_background_center_y.max = img.shape[1] - change.new
+            slider_signal_center_x.min = change.new
+            slider_signal_center_x.max = img.shape[0] - change.new
+            slider_signal_center_y.min = change.new
+            slider_signal_center_y.max = img.shape[1] - change.new
             try:
-                slider_background_center_z.min = change.new + 1
-                slider_background_center_z.max = img.shape[2] - (change.new + 1)
-                slider_signal_center_z.min = change.new + 1
-                slider_signal_center_z.max = img.shape[2] - (change.new + 1)
+                slider_background_center_z.min = change.new
+                slider_background_center_z.max = img.shape[2] - change.new
+                slider_signal_center_z.min = change.new
+                slider_signal_center_z.max = img.shape[2] - change.new
             except NameError:
                 pass
 
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index cda6cd2..02b6f73 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -637,21 +637,21 @@ class SNR(NoReferenceMetricsInterface):
 
         # Create sliders for signal center coordinates
         slider_signal_center_x = _create_slider_widget(
-            min=slider_radius.value + 1,
-            max=img.shape[0] - (slider_radius.value + 1),
+            min=slider_radius.value,
+            max=img.shape[0] - slider_radius.value,
             value=signal_start[0],
         )
         slider_signal_center_y = _create_slider_widget(
-            min=slider_radius.value + 1,
-            max=img.shape[1] - (slider_radius.value + 1),
+            min=slider_radius.value,
+            max=img.shape[1] - slider_radius.value,
             value=signal_start[1],
         )
 
         if img.ndim == 3 and img.shape[-1] != 3:
             # Add widget for z coordinate
             slider_signal_center_z = _create_slider_widget(
-                min=slider_radius.value + 1,
-                max=img.shape[2] - (slider_radius.value + 1),
+                min=slider_radius.value,
+                max=img.shape[2] - slider_radius.value,
                 value=signal_start[2],
             )
             slider_signal_center_z.style = {"handle_color": "#2c7bb6"}
@@ -660,15 +660,13 @@ class SNR(NoReferenceMetricsInterface):
 
         # Update min and max values of sliders dynamically
         def _update_values(change):
-            slider_signal_center_x.min = change.new + 1
-            slider_signal_center_x.max = img.shape[0] - (change.new + 1)
-            slider_signal_center_y.min = change.new + 1
-            slider_signal_center_y.max = img.shape[1] - (change.new + 1)
-            try:
-                slider_signal_center_z.min = change.new + 1
-                slider_signal_center_z.max = img.shape[2] - (change.new + 1)
-            except NameError:
-                pass
+            slider_signal_center_x.min = change.new
+            slider_signal_center_x.max = img.shape[0] - change.new
+            slider_signal_center_y.min = change.new
+            slider_signal_center_y.max = img.shape[1] - change.new
+            if slider_signal_center_z is not None:
+                slider_signal_center_z.min = change.new
+                slider_signal_center_z.max = img.shape[2] - change.new
 
         slider_radius.observe(_update_values, "value")
 
-- 
2.43.0


From 05f84fda6ff0b6f49550bb04cf025a535ef6d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 46/64] fix: reject centers too close to the upper border in
 the region selection

---
 src/viqa/nr_metrics/cnr.py | 8 ++++----
 src/viqa/nr_metrics/snr.py | 4 ++--
 src/viqa/utils/misc.py     | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index b8511a3..d261af0 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -237,8 +237,8 @@ class CNR(NoReferenceMetricsInterface):
 
         # check if signal_center and background_center are tuples of integers and not
         # too close to the border
-        _check_border_too_close(signal_center, radius)
-        _check_border_too_close(background_center, radius)
+        _check_border_too_close(signal_center, radius, img.shape)
+        _check_border_too_close(background_center, radius, img.shape)
 
         # Visualize centers
         if img.ndim == 3 and img.shape[-1] != 3:  # 3D image
@@ -445,8 +445,8 @@ class CNR(NoReferenceMetricsInterface):
 
         # check if signal_center and background_center are tuples of integers and not
         # too close to the border
-        _check_border_too_close(glob_signal_center, glob_radius)
-        _check_border_too_close(glob_background_center, glob_radius)
+        _check_border_too_close(glob_signal_center, glob_radius, img.shape)
+        _check_border_too_close(glob_background_center, glob_radius, img.shape)
 
         # Write values to attributes
         _save_values(None)
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 02b6f73..545ab12 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -272,7 +272,7 @@ class SNR(NoReferenceMetricsInterface):
 
             # check if signal_center is a tuple of integers
             # and not too close to the border
-            _check_border_too_close(signal_center, radius)
+            _check_border_too_close(signal_center, radius, img.shape)
         else:
             if not signal_center:
                 # Center of image
@@ -613,7 +613,7 @@ class SNR(NoReferenceMetricsInterface):
             raise ValueError("Region type not valid.")
 
         # Check if signal_center is a tuple of integers and not too close to the border
-        _check_border_too_close(glob_signal_center, glob_radius)
+        _check_border_too_close(glob_signal_center, glob_radius, img.shape)
 
         # Write values to attributes
         _save_values(None)
diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 351f7ae..28f35c8 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -440,11 +440,11 @@ def _check_chromatic(img_r, img_m, chromatic):
     return img_r_tensor, img_m_tensor
 
 
-def _check_border_too_close(center, radius):
-    for center_coordinate in center:
+def _check_border_too_close(center, radius, shape):
+    for center_coordinate, length in zip(center, shape, strict=False):
         if not isinstance(center_coordinate, int):
             raise TypeError("Center has to be a tuple of integers.")
-        if center_coordinate - radius < 0:
+        if center_coordinate - radius < 0 or center_coordinate + radius > length:
             raise ValueError(
                 "Center has to be at least the radius away from the border."
             )
-- 
2.43.0


From 345a92054c437f9c02ddbfcd94102dbf69c3d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 47/64] fix: reopen the region selection of SNR after values
 without a region were saved

---
 src/viqa/nr_metrics/snr.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 545ab12..5f19908 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -550,44 +550,38 @@ class SNR(NoReferenceMetricsInterface):
 
         # Check if starting parameters are provided
         if "signal_center" not in kwargs.keys():
-            try:
-                signal_start = self.parameters["signal_center"]
-            except KeyError:
+            signal_start = self.parameters.get("signal_center")
+            if signal_start is None:
                 signal_start = center_point
         else:
             signal_start = kwargs.pop("signal_center")
         if "radius" not in kwargs.keys():
-            try:
-                radius_start = self.parameters["radius"]
-            except KeyError:
+            radius_start = self.parameters.get("radius")
+            if radius_start is None:
                 radius_start = 1
         else:
             radius_start = kwargs.pop("radius")
         if "region_type" not in kwargs.keys():
-            try:
-                region_type_start = self.parameters["region_type"]
-            except KeyError:
+            region_type_start = self.parameters.get("region_type")
+            if region_type_start is None:
                 region_type_start = "cubic"
         else:
             region_type_start = kwargs.pop("region_type")
         if "iterations" not in kwargs.keys():
-            try:
-                iterations_start = self.parameters["iterations"]
-            except KeyError:
+            iterations_start = self.parameters.get("iterations")
+            if iterations_start is None:
                 iterations_start = 2
         else:
             iterations_start = kwargs.pop("iterations")
         if "lower_threshold" not in kwargs.keys():
-            try:
-                lower_threshold_start = self.parameters["lower_threshold"]
-            except KeyError:
+            lower_threshold_start = self.parameters.get("lower_threshold")
+            if lower_threshold_start is None:
                 lower_threshold_start = 90
         else:
             lower_threshold_start = kwargs.pop("lower_threshold")
         if "upper_threshold" not in kwargs.keys():
-            try:
-                upper_threshold_start = self.parameters["upper_threshold"]
-            except KeyError:
+            upper_threshold_start = self.parameters.get("upper_threshold")
+            if upper_threshold_start is None:
                 upper_threshold_start = 99
         else:
             upper_threshold_start = kwargs.pop("upper_threshold")
-- 
2.43.0


From ec4a74904b421f5ddc5813e3e6cd59d6ca114e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:01 +0000
Subject: [PATCH 48/64] fix: calculate the full region of SNR for every
 selected region type

---
 src/viqa/nr_metrics/snr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 5f19908..9b549a1 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -473,10 +473,11 @@ class SNR(NoReferenceMetricsInterface):
 
             _, _, signal_region = find_largest_region(
                 img=binary_foreground,
-                region_type=glob_region_type,
+                region_type="full",
                 iterations=iterations_slider.value,
             )
 
+            signal_region = np.ma.filled(signal_region, False)
             glob_signal = np.ma.array(img, mask=~signal_region, copy=True)
             glob_iterations = iterations_slider.value
             glob_lower_threshold = lower_threshold_slider.value
-- 
2.43.0


From dd0601dd2fb233480c51b1407388bfbbf1bbfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 49/64] fix: reopen the region selection of CNR with given
 starting points

---
 src/viqa/nr_metrics/cnr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index d261af0..c41d52c 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -418,6 +418,9 @@ class CNR(NoReferenceMetricsInterface):
             img = _to_grayscale(img)
 
         center_point = tuple(val // 2 for val in img.shape)
+        background_start = kwargs.pop("background_center", center_point)
+        signal_start = kwargs.pop("signal_center", center_point)
+        radius_start = kwargs.pop("radius", 1)
         # Check if background_center and signal_center are provided
         if {"background_center", "signal_center", "radius"}.issubset(
             self.parameters.keys()
@@ -425,10 +428,6 @@ class CNR(NoReferenceMetricsInterface):
             background_start = self.parameters["background_center"]
             signal_start = self.parameters["signal_center"]
             radius_start = self.parameters["radius"]
-        else:
-            background_start = kwargs.pop("background_center", center_point)
-            signal_start = kwargs.pop("signal_center", center_point)
-            radius_start = kwargs.pop("radius", 1)
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-- 
2.43.0


From a8cc7f714d1d54762bec6aec6cfbca124d273d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 50/64] fix: do not carry a calculated region over to the next
 region selection of SNR

---
 src/viqa/nr_metrics/snr.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b549a1..056549f 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -589,7 +589,20 @@ class SNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-        global glob_signal_center, glob_radius, glob_region_type
+        global \
+            glob_signal_center, \
+            glob_radius, \
+            glob_region_type, \
+            glob_signal, \
+            glob_iterations, \
+            glob_lower_threshold, \
+            glob_upper_threshold
+        # Start without the region calculated in an earlier selection
+        glob_signal = None
+        glob_iterations = iterations_start
+        glob_lower_threshold = lower_threshold_start
+        glob_upper_threshold = upper_threshold_start
+
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if len(glob_signal_center) != img.ndim:
             raise ValueError("Signal center has to be in the same dimension as img.")
-- 
2.43.0


From 96043f6d0d43518db719fd301a76375cdd7377f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 51/64] fix: keep the values of region selections open at the
 same time apart

---
 src/viqa/nr_metrics/cnr.py | 14 +++++++-------
 src/viqa/nr_metrics/snr.py | 37 ++++++++++++++-----------------------
 2 files changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index c41d52c..04baad4 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -58,10 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_background_center = ()
-glob_radius = None
-
 FIGSIZE_CNR_2D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_2D)
 FIGSIZE_CNR_3D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_3D)
 
@@ -333,6 +329,11 @@ class CNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Values of this selection, other selections may be open at the same time
+        glob_signal_center = ()
+        glob_background_center = ()
+        glob_radius = None
+
         # Define output layout
         def _output_layout(out, figsize_variable):
             figsize = kwargs.get("figsize", figsize_variable)
@@ -345,7 +346,7 @@ class CNR(NoReferenceMetricsInterface):
 
         # Define function to save values from global variables to .parameters attribute
         def _save_values(_):
-            global glob_signal_center, glob_background_center, glob_radius
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             self.parameters.update(
                 {
                     "signal_center": glob_signal_center,
@@ -357,7 +358,7 @@ class CNR(NoReferenceMetricsInterface):
         # Define function to save values to global variables
         def _write_values_to_global(signal_value, background_value, radius_value):
             # Set global variables
-            global glob_signal_center, glob_background_center, glob_radius
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             glob_signal_center = signal_value
             glob_background_center = background_value
             glob_radius = radius_value
@@ -431,7 +432,6 @@ class CNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-        global glob_signal_center, glob_background_center, glob_radius
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if img.ndim != len(glob_signal_center) or img.ndim != len(
             glob_background_center
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 056549f..b7a4283 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -58,14 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_radius = None
-glob_region_type = None
-glob_iterations = None
-glob_lower_threshold = None
-glob_upper_threshold = None
-glob_signal = None
-
 
 class SNR(NoReferenceMetricsInterface):
     """Class to calculate the signal-to-noise ratio (SNR) for an image.
@@ -394,6 +386,15 @@ class SNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Values of this selection, other selections may be open at the same time
+        glob_signal_center = ()
+        glob_radius = None
+        glob_region_type = None
+        glob_iterations = None
+        glob_lower_threshold = None
+        glob_upper_threshold = None
+        glob_signal = None
+
         # Define output layout
         def _output_layout(out, figsize):
             figsize = list(vis_kwargs.get("figsize", figsize))
@@ -408,7 +409,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Define function to save values from global variables to .parameters attribute
         def _save_values(_):
-            global \
+            nonlocal \
                 glob_signal, \
                 glob_signal_center, \
                 glob_radius, \
@@ -457,7 +458,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Calculate region
         def _calculate_region(_):
-            global \
+            nonlocal \
                 glob_region_type, \
                 glob_signal, \
                 glob_iterations, \
@@ -488,7 +489,7 @@ class SNR(NoReferenceMetricsInterface):
         # Define function to save values to global variables
         def _write_values_to_global(signal_value, radius_value, region_type):
             # Set global variables
-            global glob_signal_center, glob_radius, glob_region_type
+            nonlocal glob_signal_center, glob_radius, glob_region_type
             glob_signal_center = signal_value
             glob_radius = radius_value
             glob_region_type = region_type
@@ -506,7 +507,7 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
+            nonlocal glob_signal
             _visualize_snr_2d(
                 img=img,
                 signal_center=signal_center,
@@ -533,7 +534,7 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
+            nonlocal glob_signal
             _visualize_snr_3d(
                 img=img,
                 signal_center=signal_center,
@@ -589,16 +590,6 @@ class SNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-        global \
-            glob_signal_center, \
-            glob_radius, \
-            glob_region_type, \
-            glob_signal, \
-            glob_iterations, \
-            glob_lower_threshold, \
-            glob_upper_threshold
-        # Start without the region calculated in an earlier selection
-        glob_signal = None
         glob_iterations = iterations_start
         glob_lower_threshold = lower_threshold_start
         glob_upper_threshold = upper_threshold_start
-- 
2.43.0


From 7d58fff5746a8a676c72f9e34a9f8dc1d05873ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:24 +0000
Subject: [PATCH 52/64] fix: score the whole image with the values saved in the
 region selection of SNR

---
 src/viqa/nr_metrics/snr.py | 53 ++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index b7a4283..a08aa88 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1005,32 +1005,35 @@ def signal_to_noise_ratio(
             img=binary_foreground, region_type=region_type, iterations=iterations
         )
 
-    # Check if signal_center is a tuple of integers and radius is an integer
-    for center in signal_center:
-        if not isinstance(center, int):
-            raise TypeError("Center has to be a tuple of integers.")
-        if center - radius < 0:  # check if center is too close to the border
-            raise ValueError(
-                "Center has to be at least the radius away from the border."
-            )
-
-    if not isinstance(radius, int) or radius <= 0:
-        raise TypeError("Radius has to be a positive integer.")
+    # Center and radius are not needed if the whole image is the signal
+    whole_image = region_type in {"full", "original"} and not auto_center
+    if not whole_image or signal_center is not None or radius is not None:
+        # Check if signal_center is a tuple of integers and radius is an integer
+        for center in signal_center:
+            if not isinstance(center, int):
+                raise TypeError("Center has to be a tuple of integers.")
+            if center - radius < 0:  # check if center is too close to the border
+                raise ValueError(
+                    "Center has to be at least the radius away from the border."
+                )
+
+        if not isinstance(radius, int) or radius <= 0:
+            raise TypeError("Radius has to be a positive integer.")
 
-    # Check if img and signal_center have the same dimension
-    if img.ndim == 3 and img.shape[-1] == 3:
-        if img.ndim != len(signal_center) + 1:
-            raise ValueError("Center has to be in the same dimension as img.")
-    else:
-        if img.ndim != len(signal_center):
-            raise ValueError("Center has to be in the same dimension as img.")
-
-    # Check the upper borders, too
-    for center, size in zip(signal_center, img.shape, strict=False):
-        if center + radius > size:
-            raise ValueError(
-                "Center has to be at least the radius away from the border."
-            )
+        # Check if img and signal_center have the same dimension
+        if img.ndim == 3 and img.shape[-1] == 3:
+            if img.ndim != len(signal_center) + 1:
+                raise ValueError("Center has to be in the same dimension as img.")
+        else:
+            if img.ndim != len(signal_center):
+                raise ValueError("Center has to be in the same dimension as img.")
+
+        # Check the upper borders, too
+        for center, size in zip(signal_center, img.shape, strict=False):
+            if center + radius > size:
+                raise ValueError(
+                    "Center has to be at least the radius away from the border."
+                )
 
     def _get_signal(img):
         # Define region
-- 
2.43.0


From fc2772b80e019f70048cf56863f7ffaff92a61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:39 +0000
Subject: [PATCH 53/64] fix: use the published diagonal kernels for GSM of 2D
 images

---
 src/viqa/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/kernels.py b/src/viqa/kernels.py
index ed1df80..d7f199b 100644
--- a/src/viqa/kernels.py
+++ b/src/viqa/kernels.py
@@ -395,7 +395,7 @@ def gsm_kernel_2d_xy():
         [
             [0, 0, -1, 0, 0],
             [0, 0, -3, -8, 0],
-            [-1, -3, 0, 3, 1],
+            [1, 3, 0, -3, -1],
             [0, 8, 3, 0, 0],
             [0, 0, 1, 0, 0],
         ]
@@ -408,7 +408,7 @@ def gsm_kernel_2d_yx():
         [
             [0, 0, -1, 0, 0],
             [0, -8, -3, 0, 0],
-            [1, 3, 0, -3, -1],
+            [-1, -3, 0, 3, 1],
             [0, 0, 3, 8, 0],
             [0, 0, 1, 0, 0],
         ]
-- 
2.43.0


From 0883f5bb2f063e63db0ccfe48cfb92ca9d13da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 54/64] fix: center the kernel on every pixel in
 correlate_convolve_abs

---
 src/viqa/utils/misc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 28f35c8..29c3da1 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -122,20 +122,21 @@ def correlate_convolve_abs(
         kernel = np.flip(kernel)  # Flip kernel
 
     kernel_size = kernel.shape[0]  # Get kernel size
+    pad_width = kernel_size // 2  # Center kernel on every pixel
     ndim = len(img.shape)  # Get number of dimensions
 
     # Pad image
     match border_mode:
         case "constant":
-            origin = np.pad(img, kernel_size, mode="constant", constant_values=value)
+            origin = np.pad(img, pad_width, mode="constant", constant_values=value)
         case "reflect":
-            origin = np.pad(img, kernel_size, mode="reflect")
+            origin = np.pad(img, pad_width, mode="reflect")
         case "nearest":
-            origin = np.pad(img, kernel_size, mode="edge")
+            origin = np.pad(img, pad_width, mode="edge")
         case "mirror":
-            origin = np.pad(img, kernel_size, mode="symmetric")
+            origin = np.pad(img, pad_width, mode="symmetric")
         case "wrap":
-            origin = np.pad(img, kernel_size, mode="wrap")
+            origin = np.pad(img, pad_width, mode="wrap")
         case _:
             raise ValueError("Border mode not supported")
 
-- 
2.43.0


From 3651b4921f486d227274002571696d276520639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 55/64] fix: accept results of metrics without a score in
 export_image

---
 src/viqa/utils/export.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index be326ec..66ab862 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -292,7 +292,7 @@ def export_image(
                 y_pos = 0.09 - 0.03 * j  # 0.09 is the top of the plot
                 metric, result = list(results_fr.items())[counter]
                 fig.text(
-                    x_pos, y_pos, f"{metric}: {result:.2f}", ha="center", fontsize=8
+                    x_pos, y_pos, _format_result(metric, result), ha="center", fontsize=8
                 )
                 counter += 1
     # Plot no-reference metrics
@@ -300,7 +300,9 @@ def export_image(
     for j in range(num_no_reference):
         y_pos = 0.09 - 0.03 * j
         metric, result = list(results_nr.items())[j]
-        fig.text(x_pos, y_pos, f"{metric}: {result:.2f}", ha="center", fontsize=8)
+        fig.text(
+            x_pos, y_pos, _format_result(metric, result), ha="center", fontsize=8
+        )
 
     axs[0].axis("off")
     axs[1].axis("off")
@@ -316,3 +318,10 @@ def export_image(
             plt.show()
     else:
         plt.show()
+
+
+def _format_result(metric, result):
+    """Format a result, which is text for metrics without a score."""
+    if isinstance(result, str):
+        return f"{metric}: {result}"
+    return f"{metric}: {result:.2f}"
-- 
2.43.0


From 733045b0e964ee5b2561bb82ab35972530f78f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 56/64] fix: crop volumes to the full size for odd sizes in the
 crop script

---
 src/scripts/crop_image.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 24518cc..392c142 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -58,10 +58,11 @@ def crop(volume, factor):
     vol_shape = volume.shape
     center = [dim_shape // 2 for dim_shape in vol_shape]
     new_size = [dim_shape // factor for dim_shape in vol_shape]
+    start = [c - (size // 2) for c, size in zip(center, new_size, strict=True)]
     volume_cropped = volume[
-        center[0] - (new_size[0] // 2) : center[0] + (new_size[0] // 2),
-        center[1] - (new_size[1] // 2) : center[1] + (new_size[1] // 2),
-        center[2] - (new_size[2] // 2) : center[2] + (new_size[2] // 2),
+        start[0] : start[0] + new_size[0],
+        start[1] : start[1] + new_size[1],
+        start[2] : start[2] + new_size[2],
     ]
     return volume_cropped
 
-- 
2.43.0


From da1031289861f7af5c92b50882f58776464de0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 57/64] fix: reject factors below one in the scripts

---
 src/scripts/crop_image.py         | 2 +-
 src/scripts/reduce_projections.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 392c142..c1ba000 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -53,7 +53,7 @@ def load_volume(file, size, bitdepth):
 
 def crop(volume, factor):
     """Crop the volume based on a factor."""
-    if factor == 1:
+    if factor <= 1:
         raise ValueError(f"Error: factor must be greater than 1, got {factor}")
     vol_shape = volume.shape
     center = [dim_shape // 2 for dim_shape in vol_shape]
diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index 9d70a47..c6b0edb 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -52,7 +52,7 @@ def load_projection(file, size, bitdepth):
 
 def get_n_projections(slices, reducing_factor):
     """Reduce the number of projections."""
-    if reducing_factor == 1:
+    if reducing_factor <= 1:
         raise ValueError(f"Error: factor must be greater than 1, got {reducing_factor}")
 
     projections_reduced = slices[::reducing_factor]
-- 
2.43.0


From d2793768595bf02d933bc4585e58f49a36b74a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 58/64] fix: save reduced projections to the current directory

---
 src/scripts/reduce_projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index c6b0edb..474a4ed 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -63,7 +63,7 @@ def get_n_projections(slices, reducing_factor):
 def save_volume(output, vol, bitdepth):
     """Save the volume to a binary file."""
     output_folder = os.path.dirname(output)
-    if not os.path.exists(output_folder):
+    if output_folder and not os.path.exists(output_folder):
         os.makedirs(output_folder)
     data_type = _parse_bitdepth(bitdepth)
     vol = vol.astype(data_type)
-- 
2.43.0


From e731980b864c00379acbbdde804fd29b15a0a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 59/64] fix: write pairs without copying and to existing
 directories

---
 src/scripts/write_to_csv.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 1228d99..07f8009 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -25,10 +25,9 @@ import sys
 
 def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     """Write pairs of reference and modified images to a CSV file."""
-    if not os.path.exists(path_csv):
-        os.makedirs(path_csv)
-        if copy:
-            os.makedirs(os.path.join(path_csv, "images"))
+    os.makedirs(path_csv, exist_ok=True)
+    if copy:
+        os.makedirs(os.path.join(path_csv, "images"), exist_ok=True)
     with open(os.path.join(path_csv, "pairs.csv"), mode="w", newline="") as file:
         writer = csv.writer(file)
         writer.writerow(["reference_image", "modified_image"])
@@ -62,7 +61,7 @@ if __name__ == "__main__":
         path_modified = sys.argv[1]
         path_reference = sys.argv[2]
         path_csv = sys.argv[3]
-        if sys.argv[4] == "copy":
+        if len(sys.argv) > 4 and sys.argv[4] == "copy":
             copy = True
             print(
                 f"Copying images from {path_modified} and {path_reference} "
-- 
2.43.0


From a64ac7bf7b3f309ea509440ad703caf10870927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:17 +0000
Subject: [PATCH 60/64] fix: combine stacks in the order of the files without
 exchanging axes

---
 src/scripts/combine_stack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index c6184d3..e23dc5b 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -27,15 +27,16 @@ from viqa.utils.loading import _load_binary, _parse_bitdepth
 
 def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     """Combine a stack of single images to a volume."""
-    files = glob.glob(os.path.join(input_path, f"*.{file_type}"))
+    files = sorted(glob.glob(os.path.join(input_path, f"*.{file_type}")))
     data_type = _parse_bitdepth(bitdepth)
 
     if len(files) != 0:
         vol = []
         for file in files:
-            vol.append(_load_binary(file, data_type, size))
+            # Slices as stored in the file, with the fastest axis last
+            vol.append(_load_binary(file, data_type, size).T)
 
-        vol = np.array(vol)
+        vol = np.concatenate(vol, axis=0)
         return vol
 
 
-- 
2.43.0


From b0f274953c89ac51fd00b21f664329742f2f470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:39 +0000
Subject: [PATCH 61/64] fix: warn about dim and im_slice of 0 for 2D images

---
 src/viqa/fr_metrics/fsim.py   | 2 +-
 src/viqa/fr_metrics/gsm.py    | 2 +-
 src/viqa/fr_metrics/mad.py    | 2 +-
 src/viqa/fr_metrics/msssim.py | 2 +-
 src/viqa/fr_metrics/vif.py    | 2 +-
 src/viqa/fr_metrics/vsi.py    | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 9eb10ef..99f943f 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -264,7 +264,7 @@ class FSIM(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate FSIM for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 4658689..655d3be 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -243,7 +243,7 @@ class GSM(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2:
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate GSM for 2D images
             score_val = gradient_similarity(
diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index a36f490..0d14576 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -234,7 +234,7 @@ class MAD(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2:
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate MAD for 2D images
             score_val = most_apparent_distortion(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index 7fa3d2c..9b4eeda 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -266,7 +266,7 @@ class MSSSIM(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate MS-SSIM for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index 1a5fd01..be35ec0 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -239,7 +239,7 @@ class VIFp(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VIFp for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 4222ebb..7d36b0a 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -260,7 +260,7 @@ class VSI(FullReferenceMetricsInterface):
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
         elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
-            if dim or im_slice:
+            if dim is not None or im_slice is not None:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
             img_r_tensor, img_m_tensor = _check_chromatic(
-- 
2.43.0


From 1fcb9b2fb94c438bffe68ce7cabbecbdec35b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:39 +0000
Subject: [PATCH 62/64] fix: warn if MS-SSIM, VSI and VIFp are printed without
 a score

---
 src/viqa/fr_metrics/msssim.py | 2 +-
 src/viqa/fr_metrics/vif.py    | 2 +-
 src/viqa/fr_metrics/vsi.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index 9b4eeda..ed941d9 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -302,4 +302,4 @@ class MSSSIM(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("MS-SSIM: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for MS-SSIM. Run score() first.")
+            warn("No score value for MS-SSIM. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index be35ec0..cdf02d0 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -275,4 +275,4 @@ class VIFp(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VIFp: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VIFp. Run score() first.")
+            warn("No score value for VIFp. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 7d36b0a..7499c17 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -296,4 +296,4 @@ class VSI(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VSI: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VSI. Run score() first.")
+            warn("No score value for VSI. Run score() first.", RuntimeWarning)
-- 
2.43.0


From 75fb930ba9f95cc8030b3d4a20b4320706792b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:39 +0000
Subject: [PATCH 63/64] fix: visualize RGB images

---
 src/viqa/utils/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 4c577ef..26cf447 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -603,7 +603,7 @@ def visualize_2d(img, export_path=None, **kwargs):
     Parameters
     ----------
     img : np.ndarray
-        The 2D image to visualize.
+        The 2D grayscale or RGB image to visualize.
     export_path : str or Path, optional
         The path to save the visualization.
     kwargs :
@@ -619,7 +619,7 @@ def visualize_2d(img, export_path=None, **kwargs):
     -------
     None
     """
-    if img.ndim != 2:
+    if img.ndim != 2 and not (img.ndim == 3 and img.shape[-1] == 3):
         raise ValueError("The image must be 2D.")
 
     figsize = kwargs.pop("figsize", (6, 6))
-- 
2.43.0


From 3b1a3d11bcdd0c43cc7da8d68d838d0ca1c23915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:39 +0000
Subject: [PATCH 64/64] fix: keep the settings of a MAD score out of module
 globals

Two MAD scores in different threads used each other's block size, stride and
image extents.
---
 src/viqa/fr_metrics/mad.py | 78 +++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 0d14576..5b6b97e 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -53,12 +53,6 @@ from viqa.utils import (
     gabor_convolve,
 )
 
-# Global preinitialized variables
-M = 0
-N = 0
-BLOCK_SIZE = 0
-STRIDE = 0
-
 
 class MAD(FullReferenceMetricsInterface):
     """Class to calculate the most apparent distortion (MAD) between two images.
@@ -493,17 +487,13 @@ def most_apparent_distortion(
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
-    # Set global variables
-    global M, N
-    M, N = img_r.shape
-    global BLOCK_SIZE, STRIDE
-    if block_size > M or block_size > N:
+    m, n = img_r.shape
+    if block_size > m or block_size > n:
         raise ValueError("block_size must be smaller than the image dimensions.")
     elif block_size > 0:
-        BLOCK_SIZE = block_size
         if block_overlap >= 1 or block_overlap < 0:
             raise ValueError("block_overlap must be between 0 and smaller than 1.")
-        STRIDE = BLOCK_SIZE - int(block_overlap * BLOCK_SIZE)
+        stride = block_size - int(block_overlap * block_size)
     else:
         raise ValueError("block_size must be positive.")
 
@@ -524,9 +514,18 @@ def most_apparent_distortion(
             )
 
     # Hiqh quality index
-    d_detect = _high_quality(img_r, img_m, data_range=data_range, **kwargs)
+    d_detect = _high_quality(
+        img_r,
+        img_m,
+        block_size=block_size,
+        stride=stride,
+        data_range=data_range,
+        **kwargs,
+    )
     # Low quality index
-    d_appear = _low_quality(img_r, img_m, **kwargs)
+    d_appear = _low_quality(
+        img_r, img_m, block_size=block_size, stride=stride, **kwargs
+    )
 
     # Combine single metrics with weighting
     alpha = 1 / (1 + beta_1 * d_detect**beta_2)  # weighting factor
@@ -534,7 +533,13 @@ def most_apparent_distortion(
     return mad_index
 
 
-def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
+def _high_quality(
+    img_r: np.ndarray,
+    img_m: np.ndarray,
+    block_size: int = 16,
+    stride: int = 4,
+    **kwargs,
+) -> float:
     """Calculate the high-quality index of MAD.
 
     Notes
@@ -588,8 +593,7 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     csf_function = kwargs.pop("csf_function", {"lambda_csf": 0.114, "f_peak": 7.8909})
     # Calculate contrast sensitivity function
     csf = _contrast_sensitivity_function(
-        M,
-        N,
+        *img_r.shape,
         cycles_per_degree,
         lambda_csf=csf_function["lambda_csf"],
         f_peak=csf_function["f_peak"],
@@ -631,25 +635,25 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     #     dtype=np.float32,
     #     count=-1
     # )
-    i_org_blocks = _extract_blocks(i_org, block_size=BLOCK_SIZE, stride=STRIDE)
-    i_err_blocks = _extract_blocks(i_err, block_size=BLOCK_SIZE, stride=STRIDE)
+    i_org_blocks = _extract_blocks(i_org, block_size=block_size, stride=stride)
+    i_err_blocks = _extract_blocks(i_err, block_size=block_size, stride=stride)
 
     # Calculate local statistics
     mu_org_p = np.mean(i_org_blocks, axis=(1, 2))
     std_err_p = np.std(i_err_blocks, axis=(1, 2), ddof=1)
 
     # std_org = _min_std(i_org, block_size=BLOCK_SIZE, stride=STRIDE)  # Legacy function
-    std_org = statisticscalc.minstd(i_org, BLOCK_SIZE, STRIDE)
+    std_org = statisticscalc.minstd(i_org, block_size, stride)
 
     mu_org = np.zeros(i_org.shape)
     std_err = np.zeros(i_err.shape)
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
-        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
-            mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
-            std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
+    for x in range(0, i_org.shape[0] - (block_size - 1), stride):
+        for y in range(0, i_org.shape[1] - (block_size - 1), stride):
+            mu_org[x : x + stride, y : y + stride] = mu_org_p[block_n]
+            std_err[x : x + stride, y : y + stride] = std_err_p[block_n]
             block_n += 1
     del mu_org_p, std_err_p  # free memory
 
@@ -688,12 +692,12 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     msk /= ms_scale
 
     # Use lum_mse and weight by distortion mask
-    win = np.ones((BLOCK_SIZE, BLOCK_SIZE)) / BLOCK_SIZE**2
+    win = np.ones((block_size, block_size)) / block_size**2
     lum_mse = convolve((_to_float(img_r) - _to_float(img_m)) ** 2, win, mode="reflect")
 
     # Kill the edges
     mp = msk * lum_mse
-    mp2 = mp[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = mp[block_size:-block_size, block_size:-block_size]
 
     # Calculate high quality index by using the 2-norm
     d_detect = (
@@ -702,7 +706,13 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     return d_detect
 
 
-def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
+def _low_quality(
+    img_r: np.ndarray,
+    img_m: np.ndarray,
+    block_size: int = 16,
+    stride: int = 4,
+    **kwargs,
+) -> float:
     """Calculate the low-quality index of MAD.
 
     Notes
@@ -765,7 +775,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     )
 
     # Calculate statistics for each filterband
-    stats = np.zeros((M, N))
+    stats = np.zeros(img_r.shape)
     for scale_n in range(scales_num):
         for orientation_n in range(orientations_num):
             # Legacy function
@@ -782,13 +792,13 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
             std_ref, skw_ref, krt_ref = statisticscalc.getstatistics(
                 np.abs(gabor_org[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             std_dst, skw_dst, krt_dst = statisticscalc.getstatistics(
                 np.abs(gabor_dst[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             # Combine statistics
             stats += weights[scale_n] * (
@@ -798,7 +808,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
             )
 
     # Kill the edges
-    mp2 = stats[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = stats[block_size:-block_size, block_size:-block_size]
 
     # Calculate low quality index by using the 2-norm
     d_appear = np.linalg.norm(mp2) / np.sqrt(np.prod(mp2.shape))
-- 
2.43.0

