From 541f448d7b3c10d901741d9111e350699ca77b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 01/28] fix: fourier2d: size the sin/cos buffer also for the
 min. degree of the 2nd dimension

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..b0b1e9b 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -347,7 +347,7 @@ static int _fourier2d_init(
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, abs(min_degree2));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
-- 
2.43.0


From 03a68687ae537a9ab67c7606b8829070eda1e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 02/28] fix: reshape_times_and_coordinates: broadcasting of
 coordinates to multi-time shape

---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From d36dff9b4c31d60c82fd101052d43c47211037ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 03/28] fix: sheval: wrong label index leading to a crash for
 invalid scale_gradient

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..79dc979 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -295,10 +295,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From b9f6ad0133826595f6c26bf4333af51c4f7b1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 04/28] fix: parser_emm: incompatible static and secular
 variation coefficients not rejected

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..bb91947 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -54,8 +54,12 @@ def combine_emm_variable(data_static, data_secvar):
     nm_secvar, gh_secvar = data_secvar["nm"], data_secvar["gh"]
     size = nm_secvar.shape[0]
 
-    if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+    if (
+        epoch_static != epoch_secvar
+        or nm_static.shape[0] < size
+        or (nm_secvar != nm_static[:size]).any()
+    ):
+        raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From f2938f0a272ae236e0c783bfcf5bad61f4ab4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 05/28] fix: load_coeff_shc: spline order of the SHC file
 ignored

---
 eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
index 53a7f1c..04fabaf 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
@@ -113,13 +113,13 @@ def load_coeff_shc(path, interpolate_in_decimal_years=False, **kwargs):
 
     times = data["t"]
 
-    kwargs["spline_oder"] = kwargs.get("spline_oder", min(data["spline_order"], 2))
-
     if len(times) == 1:
         return SparseSHCoefficientsConstant(
             data["nm"], data["gh"][:, 0], **options
         )
 
+    options.setdefault("spline_order", min(data["spline_order"], 2))
+
     if interpolate_in_decimal_years:
         coeff_class = SparseSHCoefficientsTimeDependentDecimalYear
     else:
-- 
2.43.0


From a1a523c759dcf519d8dbd4c4c576b7a421f4a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 06/28] fix: MIOPrimaryGeomagneticModel: wrong minimum degree

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..7c1ab50 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -58,7 +58,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
     @property
     def min_degree(self):
         """ Get minimum degree of the model. """
-        return max(
+        return min(
             self.model_below_ionosphere.min_degree,
             self.model_above_ionosphere.min_degree
         )
-- 
2.43.0


From 31cd29307f2199ba5ca7af61382a07614f381a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 07/28] fix: ComposedSHCoefficients: spurious time-gaps
 detected for nested validity intervals

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..47d315e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -141,7 +141,6 @@ class ComposedSHCoefficients(SHCoefficients):
             )
 
         validity_start, validity_end = inf, -inf
-        last_item_validity_end = inf
         degree = -inf
         min_degree = inf
         is_internal = items[0].is_internal
@@ -149,15 +148,13 @@ class ComposedSHCoefficients(SHCoefficients):
         for item in sorted(items, key=lambda item: item.validity):
             item_validity_start, item_validity_end = item.validity
 
-            if item_validity_start > last_item_validity_end:
+            if validity_start < inf and item_validity_start > validity_end:
                 # time-gaps between the models are not allowed
                 raise ValueError(
                     "The composed model does not allow time-gaps between "
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
-
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
 
-- 
2.43.0


From 9b2505976147e98605dc8cc2ebc4b9b68de90418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 08/28] fix: ComposedSHCoefficients: precedence of overlapping
 coefficients not preserved when decomposed

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 47d315e..a0b5c5d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -114,8 +114,8 @@ class ComposedSHCoefficients(SHCoefficients):
     def decompose(self):
         result = []
         for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
-        return result
+            result.extend(item.decompose())
+        return get_nonoverlapping_intervals(result)
 
     @property
     def time_scales(self):
-- 
2.43.0


From 7767cd523cf3849d26991d86c200b059986855fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 09/28] fix: composed and combined coefficients: infinite
 recursion when wrapping a single composed object

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index a0b5c5d..0cd3a98 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -140,6 +140,9 @@ class ComposedSHCoefficients(SHCoefficients):
                 "The composed model requires at least one set of coefficients!"
             )
 
+        if len(items) == 1: # already initialized item returned by __new__
+            return
+
         validity_start, validity_end = inf, -inf
         degree = -inf
         min_degree = inf
@@ -265,6 +268,9 @@ class CombinedSHCoefficients(SHCoefficients):
                 "The combined model requires at least one set of coefficients!"
             )
 
+        if len(items) == 1: # already initialized item returned by __new__
+            return
+
         item = items[0]
         is_internal = item.is_internal
         validity_start, validity_end = item.validity
-- 
2.43.0


From 49f7a7b35be34c38be91b9d83c20efd2c08a4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 10/28] fix: coefficients: wrong time scales leading to wrong
 evaluation of combined coefficients mixing time scales

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 0cd3a98..a8591d8 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -484,7 +484,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -518,7 +518,7 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+    time_scales = ("decimal year",)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From 3adef3c3f794c495dd9f02c7465ff1a2049f1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 11/28] fix: model evaluation: array times at the boundary of
 two components evaluated differently from scalar times

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..a3b1e2b 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -149,8 +149,11 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # time is an array
         result = _get_nans()
+        pending = full(time.shape, True)
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            # as for the scalar times, the first valid component is evaluated
+            mask = _is_valid(start, end) & pending
+            pending &= ~mask
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
-- 
2.43.0


From d42c11457b1884a3291fa27dc12528581c15c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 12/28] fix: sheval*: coordinates of non-contiguous arrays read
 incorrectly

---
 eoxmagmod/eoxmagmod/pymm_sheval.h     | 2 +-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 2 +-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 79dc979..4032886 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -189,7 +189,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // cast the objects to arrays
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[0])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[0])))
         goto exit;
 
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..0933e37 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -204,7 +204,7 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t2 = _get_as_double_array(obj_t2, 0, 0, NPY_ARRAY_ALIGNED, keywords[1])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[2])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[2])))
         goto exit;
 
     // check the arrays' dimensions
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..a4be7ec 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -250,7 +250,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t = _get_as_double_array(obj_t, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[1])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
     if (degree < 0)
-- 
2.43.0


From 3f1df88c55871b97bff2d22494160f8d05231e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 13/28] fix: sheval: size of the location vectors not checked

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 4032886..a7d0873 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -195,6 +195,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
+    // check the last dimension of the position array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     // extract degree from the array dimensions
     { 
         const int ndegrees = 1;
-- 
2.43.0


From 82a2906ea3048ae9ec6063b035a631ad12a28098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 14/28] fix: sheval2dfs: invalid coefficient set leading to a
 crash and memory leak

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 0933e37..80ea0b5 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
@@ -590,6 +591,9 @@ static void _f2d_coefset_reset(FOURIER_2D_COEF_SET *coefset)
 
 static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
+    if (NULL != coefset->offset)
+        free(coefset->offset);
+
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
 
-- 
2.43.0


From 61d0d2e7ef8ef41a6dec2f1a57de70e9320381a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 15/28] fix: shevaltemp, sheval2dfs: out of bounds write for
 coefficients with invalid degree or order

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 7 +++++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 80ea0b5..552b5f0 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -637,6 +637,13 @@ static int _f2d_coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if ((degree < 0) || (order < -degree) || (order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree %d and order %d!", degree, order);
+                goto error;
+            }
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index a4be7ec..cfb4664 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -696,6 +696,13 @@ static int _coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if ((degree < 0) || (order < -degree) || (order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree %d and order %d!", degree, order);
+                goto error;
+            }
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
-- 
2.43.0


From 3eefc2b7bab5aa640866e79fc62cf0fa40659c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 16/28] fix: shevaltemp: out of bounds read for coefficients
 time-series shorter than the spline order

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index cfb4664..24a6b1c 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -448,6 +448,13 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
         goto error;
 
+    // check that there are enough times for the requested interpolation
+
+    snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[0]);
+
+    if (_check_array_dim_le(arr_ct, 0, spline_order, buffer))
+        goto error;
+
     return _coefset_init(coefset, arr_ct, arr_cv, arr_cm, spline_order);
 
   error:
-- 
2.43.0


From f279ff100e89ee95168f49f07556f20fcbfdadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 17/28] fix: legendre: out of bounds write for degree 0

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..4b190a2 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,10 +104,14 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
+    ldp[0] = 0.0 ;
+
+    if (degree < 1)
+        return;
+
     lp[1] = sin_elv ;
     lp[2] = cos_elv;
 
-    ldp[0] = 0.0 ;
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
-- 
2.43.0


From f49ddd562b3751498c093054be5a677b418529c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 18/28] fix: shevaltemp: contributions of coefficient sets
 sharing the same degree and order not summed

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 24a6b1c..16d5ad0 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -78,7 +78,6 @@ typedef struct CoefSet {
     size_t ncoef;
     int spline_order;
     int degree;
-    ptrdiff_t idx_last;
 } COEF_SET;
 
 static void _coefset_reset(COEF_SET *coefset);
@@ -472,6 +471,8 @@ static void _coeff_interp(double time, MODEL_TS *model) {
 
     size_t i, n = model->ncoefset;
 
+    memset(model->coef, 0, model->sh_model.nterm*sizeof(double[2]));
+
     for (i = 0; i < n; ++i) {
         const COEF_SET *coefset = model->coefsets + i;
         coefset->coeff_set_interp(time, model, coefset);
@@ -690,7 +691,6 @@ static int _coefset_init(
     coefset->ncoef = PyArray_DIMS(arr_cm)[0];
     coefset->spline_order = spline_order;
     coefset->degree = 0;
-    coefset->idx_last = -1;
 
     if (NULL == (coefset->offset = (ptrdiff_t*)malloc(coefset->ncoef*sizeof(ptrdiff_t))))
     {
@@ -743,10 +743,6 @@ static int _coefset_init(
 static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coefset) {
     INTERP_BASIS basis = get_interp0_basis(time, coefset->ct, coefset->ntime);
 
-    if (coefset->idx_last == basis.i) {
-        return;
-    }
-
     double (*coef)[2] = model->coef;
 
     size_t i, n = coefset->ncoef;
@@ -755,10 +751,8 @@ static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp0_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp0_eval(&basis, coefset->cv + i*coefset->ntime);
     }
-
-     ((COEF_SET*)coefset)->idx_last = basis.i;
 }
 
 
@@ -775,7 +769,7 @@ static void _coeff_set_interp1(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp1_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp1_eval(&basis, coefset->cv + i*coefset->ntime);
     }
 }
 
-- 
2.43.0


From 2a85216c68cf5a5eb8eda881dc25eb90e88c7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 19/28] fix: eval_qdlatlonvb: coefficients file path truncated
 to 256 characters

---
 qdipole/eval_qdlatlon.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0a6dbef..05c0e86 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -108,7 +108,7 @@
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
       integer*4  vecflag, n_data, i
-      character*256 coeff_file
+      character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
       epoch_old = -9999.9
-- 
2.43.0


From 89052cf898a13df7a5358b1d47cce2256b4ad616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 20/28] fix: eval_mlt, eval_subsol: wrong day of year for times
 before 2000-01-01

---
 qdipole/eval_mlt.f90    | 2 +-
 qdipole/eval_subsol.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..e684cf9 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -64,7 +64,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..16b88f7 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -56,7 +56,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From 5297c9416aeff2f2cc0782e5a47716f640a4904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 21/28] fix: ComposedGeomagneticModel: failing rotation of the
 vectors when location has fewer dimensions than time

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..6a7b8ce 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -81,8 +82,10 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        time = asarray(time)
-        location = asarray(location)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
-- 
2.43.0


From 11d4678da1ef34659ce8d227f544fd16a788fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 22/28] fix: MIOPrimaryGeomagneticModel: failing evaluation
 when location has fewer dimensions than time

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 7c1ab50..ca4f488 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -74,7 +74,10 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
         location = convert(
             location, input_coordinate_system, GEOCENTRIC_SPHERICAL
         )
-- 
2.43.0


From ce2fe96099ff1f3af36ed50b7df0219c5c2ca03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:19 +0000
Subject: [PATCH 23/28] fix: shc_eval_dv: wrong azimuth component of the
 gradient very close to the poles

---
 .../eoxmagmod/include/spherical_harmonics.h   | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 4b190a2..2429b02 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -468,7 +468,9 @@ static void shc_eval_dv(
 )
 {
     size_t i, j;
-    const double cos_elv = cos(elv);
+    // consistently with shc_legendre(), cos(elv) rounds the same way as lp
+    const double sin_elv = sin(elv);
+    const double cos_elv = sqrt((1.0-sin_elv)*(1.0+sin_elv));
     double _dvrd, _dvel, _dvaz;
     const double dr_scale = is_internal ? 1.0 : -1.0;
     const size_t dr_offset = is_internal ? 1 : 0;
@@ -509,12 +511,16 @@ static void shc_eval_dv(
     }
 
     *dvel = _dvel;
-    *dvaz = _dvaz / cos_elv;
+    *dvaz = _dvaz;
     *dvrd = _dvrd;
 
-    // special handling of the azimuth component in the vicinity of the poles
-    if ((degree > 0) && (fabs(cos_elv) < 1e-10))
+    if (fabs(cos_elv) >= 1e-10)
+    {
+        *dvaz /= cos_elv;
+    }
+    else if (degree > 0)
     {
+        // special handling of the azimuth component in the vicinity of the poles
         shc_eval_dvaz_pole(dvaz, degree, elv, coef, lcs, rrp);
     }
 }
@@ -552,7 +558,9 @@ static void shc_eval_v_dv(
 )
 {
     size_t i, j;
-    const double cos_elv = cos(elv);
+    // consistently with shc_legendre(), cos(elv) rounds the same way as lp
+    const double sin_elv = sin(elv);
+    const double cos_elv = sqrt((1.0-sin_elv)*(1.0+sin_elv));
     double _vpot, _dvrd, _dvel, _dvaz;
     const double dr_scale = is_internal ? 1.0 : -1.0;
     const size_t dr_offset = is_internal ? 1 : 0;
@@ -598,12 +606,16 @@ static void shc_eval_v_dv(
 
     *vpot = _vpot * rad;
     *dvel = _dvel;
-    *dvaz = _dvaz / cos_elv;
+    *dvaz = _dvaz;
     *dvrd = _dvrd;
 
-    // special handling of the azimuth component in the vicinity of the poles
-    if ((degree > 0) && (fabs(cos_elv) < 1e-10))
+    if (fabs(cos_elv) >= 1e-10)
+    {
+        *dvaz /= cos_elv;
+    }
+    else if (degree > 0)
     {
+        // special handling of the azimuth component in the vicinity of the poles
         shc_eval_dvaz_pole(dvaz, degree, elv, coef, lcs, rrp);
     }
 }
-- 
2.43.0


From 8a517cbd87ef7156bc55c7fcbafc47093bfd9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 24/28] fix: eval_qdlatlon: NaN time evaluated with the
 coefficients of the preceding evaluation

---
 qdipole/eval_qdlatlon.f90 | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 05c0e86..898a7f6 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -78,8 +78,13 @@
       epoch_old = -9999.9
 
       do i = 1, n_data
-!        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+         if (epoch .ne. epoch) then ! undefined time (NaN)
+            qdlat(i) = t_dy(i)
+            qdlon(i) = t_dy(i)
+            cycle
+         endif
+!        Reload coefficients if time has changed by more than epoch_limit
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
@@ -114,8 +119,18 @@
       epoch_old = -9999.9
 
       do i = 1, n_data
-!        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+         if (epoch .ne. epoch) then ! undefined time (NaN)
+            qdlat(i) = t_dy(i)
+            qdlon(i) = t_dy(i)
+            f11(i) = t_dy(i)
+            f12(i) = t_dy(i)
+            f21(i) = t_dy(i)
+            f22(i) = t_dy(i)
+            f(i) = t_dy(i)
+            cycle
+         endif
+!        Reload coefficients if time has changed by more than epoch_limit
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
-- 
2.43.0


From 0970dd7d68b7f52c2486a3431c7a53d999516388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 25/28] fix: eval_subsol, eval_mlt: process terminated for
 times out of the supported range

---
 qdipole/eval_mlt.f90    | 19 ++++++++++++++++---
 qdipole/eval_subsol.f90 | 17 +++++++++++++++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e684cf9..33d2e03 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -34,10 +34,12 @@
 
       subroutine eval_mlt(t_mlt, qdlon, t_mjd2k, n_data)
 
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec
+      real*8  t_0, sec, t_min, t_max
+      logical  valid
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
@@ -45,10 +47,23 @@
       integer  n_data, i
       integer  iyr, imon, iday, idoy, ihour, imin
       parameter(epoch_limit = 1./365.25)
+      parameter(t_min = -36525.d0, t_max = 36890.d0)
 
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        1. Calculate civil date
+!           (the dipole and the sub-solar point are available for years
+!           1900 to 2100)
+         valid = t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max
+         if (valid) then
+            call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+            valid = iyr .le. 2100
+         endif
+         if (.not. valid) then
+            t_mlt(i) = ieee_value(t_0, ieee_quiet_nan)
+            cycle
+         endif
 !        The epoch is approximated by neglecting the leap years
          epoch = t_mjd2k(i) / 365.25 + 2000
 !        Reload coefficients and evaluate the dipole pole location.
@@ -59,8 +74,6 @@
             epoch_old = epoch
          endif
 
-!        1. Ccalculate civil date
-         call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 16b88f7..2f02fde 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -42,17 +42,30 @@
 !***********************************************************************
 
       subroutine eval_subsol(sbsllat, sbsllon, t_mjd2k, n_data)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec
+      real*8        t_0, sec, t_min, t_max
+      logical       valid
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
+      parameter(t_min = -145731.d0, t_max = 36890.d0)
 
       do i = 1, n_data
 !        1. Calculate civil date
-         call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+!           (the sub-solar point is available for years 1601 to 2100)
+         valid = t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max
+         if (valid) then
+            call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+            valid = iyr .ge. 1601 .and. iyr .le. 2100
+         endif
+         if (.not. valid) then
+            sbsllat(i) = ieee_value(t_0, ieee_quiet_nan)
+            sbsllon(i) = ieee_value(t_0, ieee_quiet_nan)
+            cycle
+         endif
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-- 
2.43.0


From 8445e8f8909fdc5cbab50fc591ee55a2d04e588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 26/28] fix: associated Legendre functions at the poles
 overflow for degrees above 1028

The Gauss normalised functions decrease and their normalisation factors grow
as powers of two, and products of the integer degrees overflow int.
---
 .../eoxmagmod/include/spherical_harmonics.h   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2429b02..4d520d7 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -98,6 +98,8 @@ static double * shc_prersqrt(int degree)
 static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv, double cos_elv, const double *psqrt, const double *prsqrt)
 {
     int i, j;
+    const double sin_elv2 = 2.0*sin_elv;
+    const double cos_elv2 = 2.0*cos_elv;
 
     // Gauss normalised associated Legendre functions (aLf)
     // Note the ldp sign change because of the derivative being calculated
@@ -115,11 +117,15 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
+    // The Gauss normalised aLf of degree i are scaled by 2^(i-1), they and
+    // the normalisation factors would exceed the floating-point range otherwise.
+    lp[0] = 0.5;
+
     for (i = 2; i <= degree; ++i)
     {
         const int i_off = (i*(i+1))/2;
         const int i1sq = (i-1)*(i-1);
-        const double w_dnm = 1.0/((2*i-1)*(2*i-3));
+        const double w_dnm = 4.0/((2.0*i-1.0)*(2.0*i-3.0));
 
         for (j = 0; j < (i-1); ++j)
         {
@@ -128,22 +134,24 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
             const int idx2 = i_off + j - i - i + 1;
             const double w = w_dnm*(i1sq - j*j);
 
-            lp [idx0] = sin_elv*lp [idx1] - w*lp [idx2];
-            ldp[idx0] = sin_elv*ldp[idx1] - w*ldp[idx2] + cos_elv*lp[idx1];
+            lp [idx0] = sin_elv2*lp [idx1] - w*lp [idx2];
+            ldp[idx0] = sin_elv2*ldp[idx1] - w*ldp[idx2] + cos_elv2*lp[idx1];
         }
 
         {
             const int idx0 = i_off + i;
             const int idx1 = i_off - 1;
 
-            lp [idx0-1] = sin_elv*lp [idx1];
-            ldp[idx0-1] = sin_elv*ldp[idx1] + cos_elv*lp[idx1];
+            lp [idx0-1] = sin_elv2*lp [idx1];
+            ldp[idx0-1] = sin_elv2*ldp[idx1] + cos_elv2*lp[idx1];
 
-            lp [idx0] = cos_elv*lp [idx1];
-            ldp[idx0] = cos_elv*ldp[idx1] - sin_elv*lp[idx1];
+            lp [idx0] = cos_elv2*lp [idx1];
+            ldp[idx0] = cos_elv2*ldp[idx1] - sin_elv2*lp[idx1];
         }
     }
 
+    lp[0] = 1.0;
+
     // Convert Gauss normalised aLf to Schmidt quasi-normalised aLf
     {
         double sqn1, sqn0 = 1.0 ;
@@ -152,7 +160,7 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
         {
             const int i_off = (i*(i+1))/2;
 
-            sqn0 *= FDIV(2*i-1,i);
+            sqn0 *= FDIV(2*i-1,2*i);
             lp[i_off] *= sqn0;
             ldp[i_off] *= sqn0;
 
-- 
2.43.0


From 27a739620cfbb4910ac8de827e3ea1d0b4870415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:31 +0000
Subject: [PATCH 27/28] fix: gradient at the poles is NaN for degrees above
 1029

The normalisation factor of the limit of the azimuth component overflows
while the Gauss normalised function vanishes.
---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 4d520d7..9adda23 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -435,11 +435,13 @@ static void shc_eval_dvaz_pole(
         // evaluate ratio between the Gauss-normalised and Schmidt
         // quasi-normalised associated Legendre functions.
         //  Equivalent to: sqrt((j==0?1:2)*(i-j)!/(i+j!))*(2i-1)!!/(i-j)!
-        sqn1 = sqn1 * FDIV(2*i-1, i);
+        // NOTE: The Gauss-normalised functions are multiplied and the ratio
+        //       divided by 2^(i-1) to prevent under- and overflows.
+        sqn1 = sqn1 * FDIV(2*i-1, 2*i);
         sqn3 = sqn1 * sqrt(FDIV(i*2, i+1));
         ps2 = ps1;
         ps1 = ps0;
-        ps0 = sin_elv*ps1 - tmp*ps2;
+        ps0 = 2*sin_elv*ps1 - 4*tmp*ps2;
 
         _dvaz += (coef[idx][0]*lsin1 - coef[idx][1]*lcos1) * rrp[i] * ps0 * sqn3;
     }
-- 
2.43.0


From b597251bfda6279d3a5b0f4149a1cb9146129274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:39 +0000
Subject: [PATCH 28/28] fix: solar position reads past the end of the array
 strides for scalar inputs

---
 eoxmagmod/eoxmagmod/pysunpos.h          | 12 +++++++-----
 eoxmagmod/eoxmagmod/pysunpos_original.h | 16 +++++++++-------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pysunpos.h b/eoxmagmod/eoxmagmod/pysunpos.h
index 5fce7d8..5068fee 100644
--- a/eoxmagmod/eoxmagmod/pysunpos.h
+++ b/eoxmagmod/eoxmagmod/pysunpos.h
@@ -73,15 +73,16 @@ static void _sunpos(
     {
         #define P(a,i) ((double*)((a).data+(i)*(a).stride[0]))
         #define V(a,i) (*P(a,i))
+        #define S(a) (*((double*)(a).data))
 
         double rasc, decl, hang, zenith, azimuth;
         double mjd2k, dtt, lat, lon, rad, pres, temp;
 
-        mjd2k = V(arrd_mjd,0); // decimal days since 2000-01-01T00:00:00
-        dtt = V(arrd_dtt,0); // seconds (TT to UT offset)
-        lat = V(arrd_lat,0) * DEG2RAD; // deg --> rad
-        lon = V(arrd_lon,0) * DEG2RAD; // deg --> rad
-        rad = V(arrd_rad,0); // km
+        mjd2k = S(arrd_mjd); // decimal days since 2000-01-01T00:00:00
+        dtt = S(arrd_dtt); // seconds (TT to UT offset)
+        lat = S(arrd_lat) * DEG2RAD; // deg --> rad
+        lon = S(arrd_lon) * DEG2RAD; // deg --> rad
+        rad = S(arrd_rad); // km
         pres = 0; // atm
         temp = 0; // dgC
 
@@ -94,6 +95,7 @@ static void _sunpos(
         V(arrd_out,3) = RAD2DEG * azimuth; // rad --> deg
         V(arrd_out,4) = RAD2DEG * zenith; // rad --> deg
 
+        #undef S
         #undef V
         #undef P
     }
diff --git a/eoxmagmod/eoxmagmod/pysunpos_original.h b/eoxmagmod/eoxmagmod/pysunpos_original.h
index bd7e6f8..bf1b757 100644
--- a/eoxmagmod/eoxmagmod/pysunpos_original.h
+++ b/eoxmagmod/eoxmagmod/pysunpos_original.h
@@ -78,19 +78,20 @@ static void _sunpos_original(
     {
         #define P(a,i) ((double*)((a).data+(i)*(a).stride[0]))
         #define V(a,i) (*P(a,i))
+        #define S(a) (*((double*)(a).data))
 
         double rasc, decl, hang, zenith, azimuth;
         double mjd2k, dtt, lat, lon, rad, pres, temp;
         double hours;
         int year, month, day;
 
-        mjd2k = V(arrd_mjd,0); // decimal days since 2000-01-01T00:00:00
-        dtt = V(arrd_dtt,0); // seconds (TT to UT offset)
-        lat = V(arrd_lat,0) * DEG2RAD; // deg --> rad
-        lon = V(arrd_lon,0) * DEG2RAD; // deg --> rad
-        rad = V(arrd_rad,0); // km
-        pres = V(arrd_pres,0); // atm
-        temp = V(arrd_temp,0); // dgC
+        mjd2k = S(arrd_mjd); // decimal days since 2000-01-01T00:00:00
+        dtt = S(arrd_dtt); // seconds (TT to UT offset)
+        lat = S(arrd_lat) * DEG2RAD; // deg --> rad
+        lon = S(arrd_lon) * DEG2RAD; // deg --> rad
+        rad = S(arrd_rad); // km
+        pres = S(arrd_pres); // atm
+        temp = S(arrd_temp); // dgC
 
         mjd2k_to_date(&year, &month, &day, &hours, mjd2k);
 
@@ -105,6 +106,7 @@ static void _sunpos_original(
         V(arrd_out,3) = RAD2DEG * azimuth; // rad --> deg
         V(arrd_out,4) = RAD2DEG * zenith; // rad --> deg
 
+        #undef S
         #undef V
         #undef P
     }
-- 
2.43.0

