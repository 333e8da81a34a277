From 48068a79d61f3c845f2743f60214c7197e7a5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:08 +0000
Subject: [PATCH 01/85] fix: Huber and Hampel weights no longer overwrite and
 re-test their own input

---
 src/direpack/sprm/_m_support_functions.py | 27 +++++++++++++----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 1a13cbc..21b23ac 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -15,22 +15,25 @@ def Fair(x, probct, *args):
 
 
 def Huber(x, probct, *args):
-    x[np.where(x <= probct)[0]] = 1
-    x[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
-    return x
+    x = np.asarray(x, dtype="float64")
+    wx = np.ones_like(x)
+    down = x > probct
+    wx[down] = probct / x[down]
+    wx[np.isnan(x)] = np.nan
+    return wx
 
 
 def Hampel(x, probct, hampelb, hampelr):
-    wx = x
-    wx[np.where(x <= probct)[0]] = 1
-    wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
-        x[np.where((x > probct) & (x <= hampelb))[0]]
-    )
-    wx[np.where((x > hampelb) & (x <= hampelr))[0]] = np.divide(
-        probct * (hampelr - (x[np.where((x > hampelb) & (x <= hampelr))[0]])),
-        (hampelr - hampelb) * abs(x[np.where((x > hampelb) & (x <= hampelr))[0]]),
+    x = np.asarray(x, dtype="float64")
+    wx = np.ones_like(x)
+    mid = (x > probct) & (x <= hampelb)
+    wx[mid] = probct / abs(x[mid])
+    high = (x > hampelb) & (x <= hampelr)
+    wx[high] = np.divide(
+        probct * (hampelr - x[high]), (hampelr - hampelb) * abs(x[high])
     )
-    wx[np.where(x > hampelr)[0]] = 0
+    wx[x > hampelr] = 0
+    wx[np.isnan(x)] = np.nan
     return wx
 
 
-- 
2.43.0


From f36a01196e7924735ed3f9b094fd0041665c4868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:08 +0000
Subject: [PATCH 02/85] fix: robust_loss downweights large negative residuals
 as well

---
 src/direpack/cross_validation/_cv_support_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 56a7f23..d98c23f 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -52,7 +52,7 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
     if len(y.shape) > 1:
         y = np.array(y).reshape(-1)
     y = y.astype('float64')
-    r = y - ypred
+    r = abs(y - ypred)
     w = fun(r,probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
     
\ No newline at end of file
-- 
2.43.0


From b159b1d2515c31e7d8029545a303d64766f60c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 03/85] fix: rm starting y weights use absolute residuals

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..9a72d76 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -135,7 +135,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if [self.centre, self.scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
-            wy = (y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
+            wy = abs(y - np.median(y)) / (1.4826 * np.median(abs(y - np.median(y))))
         self.probcty_ = norm.ppf(self.probp1)
         if self.start_cutoff_mode == "specific":
             self.probctx_ = chi2.ppf(self.probp1, p)
-- 
2.43.0


From 5b8be2bd25944e51176cd84974558bce3afc736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:46 +0000
Subject: [PATCH 04/85] fix: rm with scale='None' no longer crashes and scaled
 intercept is computed per case

---
 src/direpack/sprm/rm.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 9a72d76..90f7dad 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -230,17 +230,12 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         yfit = yp_rescaled + intercept
         if self.scale != "None":
             if self.centre == "mean":
-                b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                b0 = np.mean(ys.astype("float64") - np.matmul(Xs.astype("float64"), b).reshape(-1))
             else:
                 b0 = np.median(
-                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
+                    np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b).reshape(-1))
                 )
         else:
-            if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
-                intercept = np.mean(y - ytil)
-            else:
-                intercept = np.median(y - ytil)
             b0 = intercept
         r = y - yfit
         setattr(self, "coef_", b_rescaled)
-- 
2.43.0


From 7030c230e8a34dc673eeafd02cda94a0312b6f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:46 +0000
Subject: [PATCH 05/85] fix: rm and sprm models fitted with copy=False can
 predict

---
 src/direpack/sprm/rm.py   | 2 +-
 src/direpack/sprm/sprm.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 90f7dad..3979e67 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -257,7 +257,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
 
     def predict(self, Xn):
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != self.coef_.shape[0]:
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..3d75761 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -468,7 +468,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Input data.
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != self.x_loc_.shape[0]:
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -490,7 +490,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
         """
         n, p, Xn = _predict_check_input(Xn)
-        if p != self.X.shape[1]:
+        if p != self.x_loc_.shape[0]:
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -510,7 +510,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != self.x_loc_.shape[0]:
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
@@ -541,7 +541,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         """
         n, p, Xn = _predict_check_input(Xn)
         (n, p) = Xn.shape
-        if p != self.X.shape[1]:
+        if p != self.x_loc_.shape[0]:
             raise (
                 ValueError(
                     "New data must have seame number of columns as the ones the model has been trained with"
-- 
2.43.0


From ea175e206e482b924881ad595cdf06cbd0fe1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:13 +0000
Subject: [PATCH 06/85] fix: zero-scale columns no longer turn regression
 coefficients into NaN or zero

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 src/direpack/sprm/rm.py       | 3 ++-
 src/direpack/sprm/snipls.py   | 5 +++--
 src/direpack/sprm/sprm.py     | 4 ++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..cb2e5df 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -27,7 +27,7 @@ from ..dicomo.dicomo import dicomo
 from ..dicomo._dicomo_utils import * 
 from .capi import capi
 from ._ppdire_utils import *
-from ..preprocessing._preproc_utilities import scale_data
+from ..preprocessing._preproc_utilities import scale_data, _handle_zeros_in_scale
 from ..utils.utils import MyException, convert_X_input, convert_y_input
 import inspect
 from ..ipopt_temp.ipopt_wrapper import minimize_ipopt
@@ -684,7 +684,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 C[i] = ci
                 bi = np.dot(R,C[0:(i+1)])
                 bi_scaled = bi
-                bi = np.multiply(np.reshape(sy/sX,(p,1)),bi)
+                bi = np.multiply(np.reshape(_handle_zeros_in_scale(sy)/_handle_zeros_in_scale(sX),(p,1)),bi)
                 B[:,i] = bi[:,0]
                 B_scaled[:,i] = bi_scaled[:,0]
 
diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 3979e67..583b38d 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -23,6 +23,7 @@ from scipy.stats import norm, chi2
 from ..preprocessing.robcent import VersatileScaler
 from ..utils.utils import MyException, _predict_check_input, _check_input
 from ._m_support_functions import *
+from ..preprocessing._preproc_utilities import _handle_zeros_in_scale
 
 
 class rm(_BaseComposition, BaseEstimator, RegressorMixin):
@@ -221,7 +222,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         Xrw = np.array(np.multiply(Xs, np.sqrt(WEmat)).astype("float64"))
         scaling.set_params(scale="None")
         Xrw = scaling.fit_transform(Xrw)
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        b_rescaled = np.multiply(np.reshape(_handle_zeros_in_scale(sy) / _handle_zeros_in_scale(sX), (p, 1)), b)
         yp_rescaled = np.matmul(X, b_rescaled).reshape(-1)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled)
diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..68d8765 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -12,7 +12,7 @@ import numpy as np
 import pandas as ps
 from ..preprocessing.robcent import VersatileScaler
 from ..utils.utils import MyException, _predict_check_input, _check_input, nandot, nanmatdot
-from ..preprocessing._preproc_utilities import scale_data
+from ..preprocessing._preproc_utilities import scale_data, _handle_zeros_in_scale
 
 
 class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
@@ -247,7 +247,8 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             R = B
             T = np.empty((n, self.n_components))
             T.fill(0)
-        B_rescaled = np.multiply(np.array(sy / sX).reshape((p, 1)), B)
+        B_rescaled = np.multiply(np.array(
+            _handle_zeros_in_scale(sy) / _handle_zeros_in_scale(sX)).reshape((p, 1)), B)
         yp_rescaled = dot(X, B_rescaled)
         if self.centre == "mean":
             intercept = np.nanmean(y - yp_rescaled)
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 3d75761..85ab627 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -11,7 +11,7 @@ from ..preprocessing.robcent import VersatileScaler
 from .snipls import snipls
 from ..utils.utils import MyException, _predict_check_input, _check_input
 from ._m_support_functions import *
-from ..preprocessing._preproc_utilities import scale_data, mad
+from ..preprocessing._preproc_utilities import scale_data, mad, _handle_zeros_in_scale
 
 
 class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
@@ -404,7 +404,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 + str(res_snipls.colret_)
                 + "\n"
             )
-        b_rescaled = np.multiply(np.reshape(sy / sX, (p, 1)), b)
+        b_rescaled = np.multiply(np.reshape(_handle_zeros_in_scale(sy) / sX, (p, 1)), b)
         yp_rescaled = np.matmul(X, b_rescaled)
         if self.centre == "mean":
             intercept = np.mean(y - yp_rescaled, axis=0)
-- 
2.43.0


From 1f1c5d700fa15acb5c40a23ea4832315baffcae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:13 +0000
Subject: [PATCH 07/85] fix: inverse_transform undoes transform for zero-scale
 columns

---
 src/direpack/preprocessing/robcent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..413fa2b 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -58,7 +58,7 @@ from ..utils.utils import (
     _check_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import _check_trimming, _handle_zeros_in_scale, wrap_univ
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -194,7 +194,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        return np.multiply(Xs, _handle_zeros_in_scale(self.scale_)) + self.center_
 
 
 # For backwards compatibility
-- 
2.43.0


From fd460ef436432fb99e223b1f2703cbc2f4d0a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:25 +0000
Subject: [PATCH 08/85] fix: fitting sprm and snipls no longer rewrites the
 columns and scale settings

---
 src/direpack/sprm/snipls.py | 17 +++++++++--------
 src/direpack/sprm/sprm.py   | 36 +++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 68d8765..33e9002 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,18 +112,19 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 85ab627..220d4c9 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -189,31 +189,33 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        scale = self.scale
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -229,10 +231,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -247,8 +249,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -269,7 +271,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -320,7 +322,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
@@ -336,7 +338,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
@@ -414,7 +416,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             intercept = np.median(y - yp_rescaled, axis=0)
         # This median calculation produces slightly different result in R and Py
         yfit = yp_rescaled + intercept
-        if self.scale != "None":
+        if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
                              np.matmul(Xs.astype("float64"), b))
-- 
2.43.0


From 51e031330f349da67c39822e3888391b6b893a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:25 +0000
Subject: [PATCH 09/85] fix: weightnewx leaves the fitted model untouched

---
 src/direpack/sprm/sprm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 220d4c9..9a540ce 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -519,7 +519,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Tn = self.transform(Xn)
-        scaling = self.scalingt_
+        scaling = copy.deepcopy(self.scalingt_)
         scalet = self.scale
         if scalet == "None":
             scaling.set_params(scale="mad")
-- 
2.43.0


From e831e518bf748b077cf8af490d4c19cf3199dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:25 +0000
Subject: [PATCH 10/85] fix: sprm accepts start_X_init other than pcapp with
 specific cutoffs

---
 src/direpack/sprm/sprm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 9a540ce..1eac6cc 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -269,6 +269,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = scaling.fit_transform(Urc)
         else:
             Us = Xs
+            relcomp = p
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
         if [self.centre, scale] == ["median", "mad"]:
-- 
2.43.0


From 80b0918cab1479e5e96bdac378b979ec573863c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:25 +0000
Subject: [PATCH 11/85] fix: sprm scaled intercept is computed case by case

---
 src/direpack/sprm/sprm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 1eac6cc..b2f2554 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -420,11 +420,11 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
             else:
                 b0 = np.median(
                     np.array(ys.astype("float64") -
-                             np.matmul(Xs.astype("float64"), b))
+                             np.matmul(Xs.astype("float64"), b).reshape(-1))
                 )
             # yfit2 = (np.matmul(Xrc.Xs.astype("float64"),b) + b0)*yrc.col_sca + yrc.col_loc
             # already more generally included
-- 
2.43.0


From f42825b60ad20da976e0f677c2f86f57dd2ea9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 12/85] fix: sprm reports retained variables by their index in
 the input data

---
 src/direpack/sprm/sprm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index b2f2554..7539b0a 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -392,6 +392,11 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         wt[w0] = 0
         wy = wye
         wy[w0] = 0
+        if type(columns) == bool and res_snipls.colret_ is not None:
+            # indices refer to the variables kept, report them on the input data
+            colret = vars_to_keep[np.asarray(res_snipls.colret_, dtype=int)]
+        else:
+            colret = res_snipls.colret_
         P = res_snipls.x_loadings_
         W = res_snipls.x_weights_
         R = res_snipls.x_Rweights_
@@ -404,7 +409,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 "Final Model: Variables retained for "
                 + str(self.n_components)
                 + " latent variables: \n"
-                + str(res_snipls.colret_)
+                + str(colret)
                 + "\n"
             )
         b_rescaled = np.multiply(np.reshape(_handle_zeros_in_scale(sy) / sX, (p, 1)), b)
@@ -454,7 +459,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "x_caseweights_", wte)
         setattr(self, "y_caseweights_", wye)
         setattr(self, "caseweights_", we)
-        setattr(self, "colret_", res_snipls.colret_)
+        setattr(self, "colret_", colret)
         setattr(self, "scaling_", scaling)
         setattr(self, "scalingt_", scalingt)
         return self
-- 
2.43.0


From 696fb726819bf22c002698b8765907f83341ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 13/85] fix: snipls leaves no uninitialised attributes when no
 variable is retained

---
 src/direpack/sprm/snipls.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 33e9002..f8bc9a3 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -161,13 +161,13 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             S = np.matmul(X0.T, X0)
             dot = np.dot
         s0 = dot(X0.T, y0)
-        T = np.empty((n, self.n_components), float)
-        W = np.empty((p, self.n_components), float)
-        P = np.empty((p, self.n_components), float)
-        C = np.empty((self.n_components, 1), float)
-        Xev = np.empty((self.n_components, 1), float)
-        yev = np.empty((self.n_components, 1), float)
-        B = np.empty((p, 1), float)
+        T = np.zeros((n, self.n_components), float)
+        W = np.zeros((p, self.n_components), float)
+        P = np.zeros((p, self.n_components), float)
+        C = np.zeros((self.n_components, 1), float)
+        Xev = np.zeros((self.n_components, 1), float)
+        yev = np.zeros((self.n_components, 1), float)
+        B = np.zeros((p, 1), float)
         oldgoodies = np.array([])
         Xi = X0
         yi = y0
-- 
2.43.0


From b98b28a4fe92b8756e176747b5cbcd0ceb9ecd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:54 +0000
Subject: [PATCH 14/85] fix: preprocessing transformers return self from fit
 and accept y, as pipelines require

---
 src/direpack/preprocessing/gsspp.py   |  5 +++--
 src/direpack/preprocessing/robcent.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..2919c22 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -49,7 +49,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         self.center = center
         self.fun = fun 
         
-    def fit(self,X): 
+    def fit(self,X,y=None): 
         
         """ 
         Calculate and store generalized spatial signs
@@ -67,6 +67,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'gss_',gss_)
         setattr(self,'Xm_',Xm)
         setattr(self,'centring_',vs)
+        return(self)
         
     def transform(self,X):
         
@@ -79,7 +80,7 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-    def fit_transform(self,X): 
+    def fit_transform(self,X,y=None): 
 
         self.fit(X)
         self.transform(X)
diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 413fa2b..5561dbf 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -101,7 +101,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = scale
         self.trimming = trimming
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -148,6 +148,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Center and/or scale training data to pre-estimated location and scale
@@ -173,7 +175,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xns
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data and scale these data
         """
@@ -242,7 +244,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         self.scale = "mad"
         self.trimming = 0
 
-    def fit(self, X):
+    def fit(self, X, y=None):
         """
         Estimate location and scale, store these in the class object.
         Trimming fraction can be provided as keyword argument.
@@ -289,6 +291,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         # sklearn standard
         setattr(self, "scale_", s)
 
+        return self
+
     def transform(self, X):
         """
         Project data points to their wrapped counterparts
@@ -314,7 +318,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
 
         return Xnw
 
-    def fit_transform(self, X):
+    def fit_transform(self, X, y=None):
         """
         Estimate center and scale for training data wrap these data
         """
-- 
2.43.0


From daf555d77f7c6c44711b85b3d40e09009962cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:54 +0000
Subject: [PATCH 15/85] fix: wrapping uses the fitted location and scale and
 survives zero scale

---
 src/direpack/preprocessing/_preproc_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..39dd41d 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,8 +333,11 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
+        scaleX = _handle_zeros_in_scale(scaleX)
         xi = (dd - locX) / scaleX
     else:
         xi = np.array(dd)
-- 
2.43.0


From 3452242c8bcb5db7df93b42ee3b6607a23c92934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:54 +0000
Subject: [PATCH 16/85] fix: gen_ss_pp without centring and gen_ss_covmat on
 any table shape

---
 src/direpack/preprocessing/gsspp.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 2919c22..6360749 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -104,9 +104,6 @@ def gen_ss_pp(X,center='l1median',fun='linear_redescending'):
     Outputs: the pre-processed data 
     """    
     
-    if type(center) is str: 
-        center = eval(center)
-            
     if type(fun) is str: 
         fun = eval(fun)
     
@@ -148,12 +145,14 @@ def gen_ss_covmat(X,center='kstepLTS',fun=linear_redescending):
     Outputs: the generalized spatial sign covariance matrix
     """    
     
+    if type(fun) is str: 
+        fun = eval(fun)
     X = _check_input(X)  
     rc = VersatileScaler(center=center, scale='None')
     n,p = X.shape
     Xm = rc.fit_transform(X)
     Xgss = _gsspp(Xm,p,n,fun=fun)
-    return(Xgss.T*Xgss/n)
+    return(np.matmul(Xgss.T,Xgss)/n)
     
     
 
-- 
2.43.0


From 1d0aafba4f199bb35c0c860f3721672bf8c08402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 17/85] fix: GenSpatialSignPreProcessor.transform processes the
 data it is given

---
 src/direpack/preprocessing/gsspp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index 6360749..dbbfb3c 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -76,7 +76,13 @@ class GenSpatialSignPreProcessor(TransformerMixin,BaseEstimator):
         """
         
         check_is_fitted(self,('gss_','Xm_'))
-        Xgss = np.multiply(self.Xm_,self.gss_)
+        if type(self.fun) is str: 
+            fun = eval(self.fun)
+        else:
+            fun = self.fun
+        Xm = self.centring_.transform(X)
+        n,p = Xm.shape
+        Xgss = _gsspp(Xm,p,n,fun=fun)
         setattr(self,'X_gsspp_',Xgss)
         return(Xgss)
 
-- 
2.43.0


From 8e8e6b3b07a64f3d03e3d514d7d145492d5b81b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:00 +0000
Subject: [PATCH 18/85] fix: scaling or wrapping a single new case treats it as
 a row

---
 src/direpack/preprocessing/robcent.py | 11 ++++++-----
 src/direpack/utils/utils.py           | 12 ++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 5561dbf..248c3f0 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -56,6 +56,7 @@ from ..utils.utils import (
     convert_X_input,
     convert_y_input,
     _check_input,
+    _check_new_input,
 )
 from ._preproc_utilities import *
 from ._preproc_utilities import _check_trimming, _handle_zeros_in_scale, wrap_univ
@@ -155,8 +156,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Center and/or scale training data to pre-estimated location and scale
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_new_input(X, np.size(self.center_))
 
         Xs = scale_data(X, self.center_, self.scale_)
         setattr(self, "datas_", Xs)
@@ -169,7 +170,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_new_input(Xn, np.size(self.center_))
         Xns = scale_data(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datans_", Xns)
 
@@ -192,7 +193,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         check_is_fitted(self, ["center_", "scale_"])
         if Xs is not None:
-            Xs = _check_input(Xs)
+            Xs = _check_new_input(Xs, np.size(self.center_))
         else:
             Xs = self.datas_
 
@@ -298,8 +299,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Project data points to their wrapped counterparts
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_new_input(X, np.size(self.center_))
 
         Xw = wrap(X, self.center_, self.scale_)
         setattr(self, "dataw_", Xw)
@@ -312,7 +313,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_new_input(Xn, np.size(self.center_))
         Xnw = wrap(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datanw_", Xnw)
 
diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 4f42933..cf051c7 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -80,6 +80,18 @@ def _check_input(X):
     return(X)
 
 
+def _check_new_input(X, p):
+    """
+    Input check for new data to be processed by an object fitted on p columns:
+    a single case remains a row.
+    """
+
+    X = _check_input(X)
+    if p > 1 and X.shape == (p, 1):
+        X = X.reshape((1, -1))
+    return(X)
+
+
 def nandot(X, y):
 
     p, n = X.shape
-- 
2.43.0


From f3425967c81622a8844c2a90f7e68b14d1d923b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:12 +0000
Subject: [PATCH 19/85] fix: scalers reject new data with a different number of
 columns

---
 src/direpack/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index cf051c7..e87d608 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -89,6 +89,8 @@ def _check_new_input(X, p):
     X = _check_input(X)
     if p > 1 and X.shape == (p, 1):
         X = X.reshape((1, -1))
+    if X.shape[1] != p:
+        raise ValueError("New data must have same number of columns as the ones fitted on")
     return(X)
 
 
-- 
2.43.0


From 6c22433eefc652f98c31a70e5213872fba60cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:26 +0000
Subject: [PATCH 20/85] fix: l1median accepts its documented starting value
 argument

---
 src/direpack/preprocessing/_preproc_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 39dd41d..5630bdb 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -182,7 +182,8 @@ def l1median(X, **kwargs):
     optimization options will crash when provided matrix input.
     """
 
-    if "x0" not in kwargs:
+    x0 = kwargs.pop("x0", None)
+    if x0 is None:
         x0 = median(X)
 
     if type(X) == np.matrix:
-- 
2.43.0


From 3c01e2cf234e382bde693b533f88600f1e60ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 21/85] fix: fitting dicomo no longer rewrites its center
 setting

---
 src/direpack/dicomo/dicomo.py | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..d7550b3 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -141,6 +141,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        center = self.center
         if self.mode == 'var':
             mode = 'mom' 
             order=2
@@ -148,17 +149,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +168,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +176,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +184,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +218,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -318,13 +319,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +333,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +341,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +374,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +405,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +416,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From 2b88c70e84d0d6ca8721aad3168f7d56dbf740cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 22/85] fix: higher order distance moments raise centred
 distances to the requested power without altering them

---
 src/direpack/dicomo/_dicomo_utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index fae2edf..8e7b217 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -298,14 +298,8 @@ def distance_moment(dmx,dmy,**kwargs):
         corr4bias = 1
         
     if order>2:
-        i = 1
-        while i < iter_stop_1:  
-            dmx *= dmx
-            i += 1
-        i = 1
-        while i < iter_stop_2:  
-            dmy *= dmy
-            i += 1
+        dmx = np.power(dmx,iter_stop_1)
+        dmy = np.power(dmy,iter_stop_2)
         
         
     if center=='mean':
-- 
2.43.0


From f91568b7e28f34cbc6b5f524d7b6018a0fae9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 23/85] fix: naive distance statistics accept one-dimensional y
 and share one bias correction

---
 src/direpack/dicomo/dicomo.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d7550b3..17ac9d9 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -397,11 +397,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please supply second data vector'))
                     else:
                         y = kwargs.get('y')
-                        n1 = len(y)
-                    if n1==0:
+                        ny = len(y)
+                    if ny==0:
                         raise(MyException('Please feed data with length > 0'))
-                    if n1!=n:
+                    if ny!=n:
                         raise(MyException('Please feed x and y data of equal length'))
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
@@ -423,7 +425,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
-- 
2.43.0


From d76862e1c45f83b81033841968ab3145b004a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 24/85] fix: dicomo std is the square root of the matching
 variance

---
 src/direpack/dicomo/dicomo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 17ac9d9..41b6bb2 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -236,7 +236,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 self.x_moment_ = xmom
                 
                 if self.mode in ('std','skew','kurt'):
-                    x2mom = trim_mom(x,x,locest,2,trimming,option,False)
+                    x2mom = trim_mom(x,x,locest,2,trimming,option,biascorr and self.mode=='std')
                     xmom /= (x2mom**num_power) 
                     if biascorr:
                         if self.mode == 'skew':
@@ -347,6 +347,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
                     else:
                         xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                    if self.mode == 'std':
+                        xmom = np.sqrt(xmom)
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
-- 
2.43.0


From 17b11bfd8119faeeb9ee5fc40fc25ea2a98f8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 25/85] fix: bias corrected higher moments use the same factor
 as co-moments

---
 src/direpack/dicomo/dicomo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 41b6bb2..3b298fc 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -248,6 +248,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                             if not Fisher:
                                 xmom += 3
                 
+                if (biascorr and (order > 2) and self.mode == 'mom'):
+                    xmom *= ntrim
+                
                 if mode=='mom':
                     self.moment_ = xmom
             
-- 
2.43.0


From 781efdf7e9dea1c4068f66d7e8b9f599ca57d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 26/85] fix: median based correlation is scale invariant

---
 src/direpack/dicomo/dicomo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 3b298fc..24df1cf 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -433,7 +433,11 @@ class dicomo(_BaseComposition,BaseEstimator):
                         ymom = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
-        if mode == 'corr': 
+        if mode == 'corr' and self.est == 'arithmetic' and center == 'median':
+            # median based second moments are scales, not squared scales
+            como /= (xmom*ymom)
+            self.moment_=como
+        elif mode == 'corr': 
             como /= (np.sqrt(xmom)*np.sqrt(ymom))
             self.moment_=como
         elif mode == 'continuum':
-- 
2.43.0


From 9915bacc086ce4f1589d72528025287f10de2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 27/85] fix: MDDM accepts a single predictor

---
 src/direpack/dicomo/_dicomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index 8e7b217..b77b9fe 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -442,7 +442,7 @@ def MDDM(X,Y):
     
     for i in range(n):
         if(p==1):
-            X_dist = np.abs(X[i]-X)
+            X_dist = np.abs(X[i]-X).reshape(-1,n)
             
         else: 
             X_diff= (( X.T - np.vstack(X[i,:])).T)**2
-- 
2.43.0


From 7d9d31fdebb191880f0c23b8a2bc5943c3b7793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:41 +0000
Subject: [PATCH 28/85] fix: capi stores its centring argument

---
 src/direpack/ppdire/capi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..2cf639c 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -66,6 +66,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.projection_index = projection_index
         self.pi_arguments = pi_arguments
         self.weights = weights
+        self.centring = centring
         self.most = self.projection_index(**self.pi_arguments)
         self.scaling = scaling
         self.options = options
-- 
2.43.0


From ed2f16777539e596343b19ae1c852a34074d8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:41 +0000
Subject: [PATCH 29/85] fix: capi puts the co-moments selected by options in
 their own slots

---
 src/direpack/ppdire/capi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 2cf639c..517667f 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -95,8 +95,7 @@ class capi(_BaseComposition, BaseEstimator):
         for i in range(init_moment_calc, self.max_degree + 1):
             fit_arguments["order"] = i
             self.most.set_params(mode=order_kwargs[i - 2])
-            l = min(i - 1, len(options))
-            for j in options[np.arange(0, l)]:
+            for j in options[options <= i - 1]:
                 fit_arguments["option"] = j
                 moments[i - 3 + j + k] = self.most.fit(x, **fit_arguments)
             if i == 3:
-- 
2.43.0


From e8985bdcb254d47047bc7b8171f92a213f801dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:20 +0000
Subject: [PATCH 30/85] fix: ppdire robust and quantile regression work when y
 is passed positionally

---
 src/direpack/ppdire/ppdire.py | 50 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index cb2e5df..ccd1de3 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -251,34 +251,34 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             flag = 'two-block'
             y = kwargs.get('y')
                             
-            if 'quantile' not in kwargs:
-                quantile = .5
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
-
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
             
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
+
+        
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
-- 
2.43.0


From d16454ab0bd12da9b8e7082c1fda5714282f4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:20 +0000
Subject: [PATCH 31/85] fix: ppdire treats a positional y of None as one-block
 data, as pipelines pass it

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index ccd1de3..706a701 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -241,7 +241,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             
         if 'y' not in kwargs:
             na = len(args)
-            if na > 0: #Use of *args makes it sklearn consistent
+            if na > 0 and args[0] is not None: #Use of *args makes it sklearn consistent
                 flag = 'two-block'
                 y = args[0]
             else:
-- 
2.43.0


From 873ef571d76ad8639cc601ec25a9f9499340cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 32/85] fix: ppdire grid search does not write into the
 optimizer options it was given

---
 src/direpack/ppdire/ppdire.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 706a701..d64c453 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -425,8 +425,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+            optimizer_options = {'ndir': 1000, **self.optimizer_options}
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -435,7 +434,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -450,15 +449,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if p>2:
                 anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
                 anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+                nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=True)
                 alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
                 if optmax != 1:
                     alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
-            opt_args['maxiter'] = self.optimizer_options['maxiter']
+            opt_args['ndir'] = optimizer_options['ndir'],
+            opt_args['maxiter'] = optimizer_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
             
@@ -466,7 +465,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
@@ -531,9 +530,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     objf = -1000
                     afinbest = afin
                     ii = 0
-                    maxiter_2j = 2**round(np.log2(self.optimizer_options['maxiter'])) 
+                    maxiter_2j = 2**round(np.log2(optimizer_options['maxiter'])) 
                 
-                    while ((ii < self.optimizer_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
+                    while ((ii < optimizer_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
                         for j in np.arange(0,p):
                             projmat = np.array([np.array(Zopt[:,0]).reshape(-1),
                                          np.array(Z[:,j]).reshape(-1)]).T
-- 
2.43.0


From 1a4aa6fbd1208791fc8fefd542108f840e9812ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 33/85] fix: ppdire grid search works on two variables

---
 src/direpack/ppdire/ppdire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d64c453..50512bf 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -464,7 +464,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             # Arguments for grid plane #2
             grid_args_2 = { 
                      'alpha': self.alpha,
-                     'alphamat': alphamat2,
+                     'alphamat': alphamat2 if p>2 else None,
                      'ndir': optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
@@ -492,6 +492,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    Maxobjf[i] = maximo
            
                 elif p>2:
                 
-- 
2.43.0


From 22a12205eae43e46b0173a956031ef16c33d3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 34/85] fix: ppdire quantile regression uses the scaled
 response, as the other options do

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 50512bf..083d972 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -676,7 +676,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     linfit.fit(ti,ys)
                     ci = linfit.coef_
                 elif self.regopt == 'quantile':
-                    linfit = QuantReg(y,ti)
+                    linfit = QuantReg(ys,ti)
                     model = linfit.fit(q=quantile)
                     ci = model.params
                 # end regression if
-- 
2.43.0


From 9754ba1f261168b6bc3bdbf9b0d7a89041adb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 35/85] fix: ppdire transform returns a table when data were
 not centred

---
 src/direpack/ppdire/ppdire.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 083d972..b857121 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -356,8 +356,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             sX = centring.col_sca_
         else:
             Xs = X
-            mX = np.zeros((1,p))
-            sX = np.ones((1,p))
+            mX = np.zeros(p)
+            sX = np.ones(p)
 
         fit_arguments = {}
             
@@ -704,8 +704,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 sX = centring.col_sca_
             else:
                 Xs = X0
-                mX = np.zeros((1,p))
-                sX = np.ones((1,p))
+                mX = np.zeros(X0.shape[1])
+                sX = np.ones(X0.shape[1])
         
         bi = bi.astype("float64")
         if flag != 'one-block':            
-- 
2.43.0


From 7c40d40a6ac6c0feb82f32b3eeda9813b9c1d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 36/85] fix: ppdire intercept is a single number when data have
 been compressed

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index b857121..8bc4ac5 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -697,7 +697,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             R = np.matmul(V[:,0:p],R)
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
-            bi = B[:,h-1]
+            bi = B[:,h-1].reshape((-1,1))
             if self.center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
-- 
2.43.0


From a69b9d63d19fbdc2f639046083666a14b17ab2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 37/85] fix: ppdire scaled intercept matches the scaled
 coefficients

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 8bc4ac5..2976028 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -719,9 +719,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             yfit = np.matmul(X,bi) + intercept
             if not(scale == 'None'):
                 if (self.center == "mean"):
-                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi))
+                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),B_scaled[:,[h-1]]))
                 else:
-                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi)))
+                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),B_scaled[:,[h-1]])))
             else:
                 b0 = intercept
             
-- 
2.43.0


From 53b04cf03ba4fd2ccbe45b6980e039489ff50af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 38/85] fix: ppdire reports explained variance per component
 instead of zeros

---
 src/direpack/ppdire/ppdire.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 2976028..7db917c 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -648,6 +648,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             W[:,i] = wi
             T[:,i] = np.array(ti).reshape(-1)
             P[:,i] = np.array(pi).reshape(-1)
+            Xev[i] = nti**2 * np.sum(np.square(pi)) / np.sum(np.square(Xs)) * 100
             
             if flag != 'one-block':
                 criteval = self.most.fit(np.dot(E,wi0),
-- 
2.43.0


From d64c18cf511746131606e136e746db45abbd709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 39/85] fix: ppdire passes the co-moment option on to the
 projection index

---
 src/direpack/ppdire/ppdire.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 7db917c..416a37e 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -279,9 +279,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 probp3 = kwargs.get('probp3')
 
         
+        option = None
         if self.projection_index == dicomo:
             
-            if self.pi_arguments['mode'] in ('M3','cos','cok'):
+            if self.pi_arguments.get('mode') in ('M3','cos','cok'):
             
                 if 'option' not in kwargs:
                     option = 1
@@ -308,7 +309,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         if h > min(n,p):
             raise(MyException('number of components cannot exceed number of samples'))
             
-        if (self.projection_index == dicomo and self.pi_arguments['mode'] == 'kurt' and self.whiten_data==False):
+        if (self.projection_index == dicomo and self.pi_arguments.get('mode') == 'kurt' and self.whiten_data==False):
             warnings.warn('Whitening step is recommended for ICA')
             
         # Pre-processing adjustment if whitening
@@ -422,6 +423,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     'biascorr': biascorr, 
                     'dmetric' : 'euclidean',
                     }
+        if option is not None:
+            opt_args['option'] = option
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
@@ -477,6 +480,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'optrange' : self.optrange,
                      'square_pi' : self.square_pi
                      }
+            if option is not None:
+                grid_args_2['option'] = option
             if flag=='two-block':
                 grid_args_2['y'] = f
         
-- 
2.43.0


From 51013f9d800fed407767fcf4091396a55360b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 40/85] fix: a response given as a one-column data frame is
 used as a column

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index e87d608..2d42ea0 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -24,7 +24,7 @@ def convert_X_input(X):
 def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
-        y = y.to_numpy().T.astype('float64')
+        y = y.to_numpy().astype('float64')
     return(y)
 
 
-- 
2.43.0


From 3ab2567c1f1acd407ec8f99f0bcdb2c1698b6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:37 +0000
Subject: [PATCH 41/85] fix: sudire predicts single cases and constant scores

---
 src/direpack/sudire/sudire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..b206955 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -565,7 +565,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
         # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
+        T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
 
         # Re-adjust estimates to original dimensions if data have been compressed
@@ -644,7 +644,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
         return ys
 
-- 
2.43.0


From e52a93dfc4843cdc35a7d8107a088698294897e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:37 +0000
Subject: [PATCH 42/85] fix: sudire can be fitted with copy=False

---
 src/direpack/sudire/sudire.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index b206955..64ce2cb 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -386,7 +386,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(convert_X_input(X0), P)
         elif self.sudiremeth == "save":
             P = SAVE(
                 Xs,
@@ -400,7 +400,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(convert_X_input(X0), P)
         elif self.sudiremeth == "dr":
             P = DR(
                 Xs,
@@ -414,19 +414,19 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(convert_X_input(X0), P)
         elif self.sudiremeth == "phd":
             P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(convert_X_input(X0), P)
         elif self.sudiremeth == "iht":
             P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
             if self.scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-            T = np.matmul(self.X0, P)
+            T = np.matmul(convert_X_input(X0), P)
         else:  # SDR obtained through optimization of some function
 
             ## choose starting value for DCOV-SDR
@@ -512,7 +512,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.sudiremeth == "dcov-sdr":
                 P = dcov_res
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(convert_X_input(X0), P)
             elif self.sudiremeth == "bcov-sdr":
                 self.optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
@@ -529,7 +529,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(res_ball.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(convert_X_input(X0), P)
             elif self.sudiremeth == "mdd-sdr":
                 self.optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
@@ -546,7 +546,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(res_mdd.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(convert_X_input(X0), P)
             else:  ## user defined function
                 self.optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
@@ -563,7 +563,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     P = np.reshape(opt_res.x, (-1, self.n_components), order="F")
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
-                T = np.matmul(self.X0, P)
+                T = np.matmul(convert_X_input(X0), P)
         # perform OLS regression
         T_reg = sm.add_constant(T, has_constant="add")  # adding a constant
         ols_obj = sm.OLS(ys, T_reg).fit()
-- 
2.43.0


From 1a9a5d74dedb70da6b1c718aa934692a983da0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:37 +0000
Subject: [PATCH 43/85] fix: sudire starting values slice the response and
 honour the centring and scaling options

---
 src/direpack/sudire/sudire.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 64ce2cb..b2667d2 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -432,12 +432,14 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             ## choose starting value for DCOV-SDR
             if self.optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 3, self.n_components,
+                    center_data=self.center_data, scale_data=self.scale_data
                 )
                 if self.scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 6, self.n_components,
+                    center_data=self.center_data, scale_data=self.scale_data
                 )
                 if self.scale_data:
                     sir_start = np.matmul(N2, sir_start)
@@ -446,7 +448,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 6, self.n_components,
+                    center_data=self.center_data, scale_data=self.scale_data
                 )
                 if self.scale_data:
                     DR_start = np.matmul(N2, DR_start)
-- 
2.43.0


From 57b0c67da0b5501e9adb0f607d45493657758511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 44/85] fix: refitting sudire does not optimise over the
 previous fit's data

---
 src/direpack/sudire/sudire.py | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index b2667d2..e992b1c 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -429,8 +429,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             T = np.matmul(convert_X_input(X0), P)
         else:  # SDR obtained through optimization of some function
 
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components,
                     center_data=self.center_data, scale_data=self.scale_data
@@ -456,13 +459,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -482,12 +485,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if self.scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
                 N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -501,9 +504,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             if self.scale_data:
@@ -517,12 +520,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(convert_X_input(X0), P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -534,12 +537,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(convert_X_input(X0), P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
@@ -551,12 +554,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(convert_X_input(X0), P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if self.scale_data:
-- 
2.43.0


From 182032340a30dee3e370d6f11044f37604a6585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 45/85] fix: sudire maps loadings back through the scaling that
 was applied

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index e992b1c..93bbcf5 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -6,6 +6,7 @@ import copy
 from sklearn.utils.metaestimators import _BaseComposition
 from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
 from ..preprocessing.robcent import VersatileScaler
+from ..preprocessing._preproc_utilities import _handle_zeros_in_scale
 from ._sudire_utils import *
 from scipy.linalg import orth
 import warnings
@@ -326,6 +327,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
+                N2 = np.diag(1 / _handle_zeros_in_scale(sX))
             else:
                 raise (
                     MyException(
@@ -489,7 +491,6 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 else:
                     optimizer_constraints = tuple(const_x)
             if optimizer_arguments is None:
-                N2 = inv(sqrtm(varmatx))
                 optimizer_arguments = (
                     Xs,
                     ys,
-- 
2.43.0


From aabe0f14ba9cfb8a0d1373a064b9372eea371ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 46/85] fix: structural dimension bootstrap resamples
 predictors and response together

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 93bbcf5..b5db266 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -826,7 +826,7 @@ def estimate_structural_dim(sudiremeth, Xn, y, B, *args, **kwargs):
                 n_slices=n_slices,
                 n_components=k,
             )
-            sdr_b.fit(X_b, y=y)
+            sdr_b.fit(X_b, y=y[idx])
             projMat_b = sdr_b.proj_mat_
             uh, sh, vh = np.linalg.svd(projMat - projMat_b)
             diff_b.append(np.nanmax(sh))
-- 
2.43.0


From ad758c94756701c0998b8dc046556ac829eaff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 47/85] fix: minimize_ipopt does not modify the options it was
 given

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..914d690 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -205,8 +205,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     cl, cu = get_constraint_bounds(constraints, x0)
 
-    if options is None:
-        options = {}
+    options = {} if options is None else dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
-- 
2.43.0


From 6e6cbd6293532b7488e8d66008551b842ff52e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 48/85] fix: ipopt wrapper caches the value of x, not a
 reference to the solver's buffer

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index 914d690..cb887d2 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -87,7 +87,7 @@ class IpoptProblemWrapper(object):
 
     def evaluate_fun_with_grad(self, x):
         if self.last_x is None or not np.all(self.last_x == x):
-            self.last_x = x
+            self.last_x = np.array(x)
             self.nfev += 1
             self.last_value = self.fun(x, *self.args, **self.kwargs)
         return self.last_value
-- 
2.43.0


From 078946ed4a227c1ebecdacda796f1a53722c1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 49/85] fix: plots annotate the last case too

---
 src/direpack/plot/ppdire_plot.py |  8 ++++----
 src/direpack/plot/sprm_plot.py   | 12 ++++++------
 src/direpack/plot/sudire_plot.py |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 147bbf3..b61f2ad 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -93,10 +93,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -143,10 +143,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 948ebdc..d4581aa 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -137,10 +137,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -256,10 +256,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
@@ -325,10 +325,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (name_indices[i+1],wc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d4024c3..ac39ebb 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -93,10 +93,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -141,10 +141,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
-- 
2.43.0


From d785addb62cb9adecfc4216c6a949e9ef14ab0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 50/85] fix: caseweight plot puts each case name on its own bar

---
 src/direpack/plot/sprm_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index d4581aa..99c5ade 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -326,7 +326,7 @@ class sprm_plot(sprm):
         if len(names)>0:
             if not(onlyval):
                 for i in range(0,len(names)):
-                    ax1.annotate(names[i], (name_indices[i+1],wc[i]))
+                    ax1.annotate(names[i], (name_indices[i],wc[i]))
         if len(namesv)>0:
             for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
-- 
2.43.0


From fef49a5e9f8ca6d0b2bbd1d2752a741f9a4b184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 51/85] fix: truncated coefficient plot labels each bar with
 its own variable

---
 src/direpack/plot/sprm_plot.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 99c5ade..7200701 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -170,14 +170,13 @@ class sprm_plot(sprm):
        
         b_orig = np.array(getattr(self.res_sprm,entity)).reshape(-1)
         if truncation > 0:
-            ind_sort = np.argsort(np.argsort(b_orig))
-            b_sort = np.sort(b_orig)
+            ind_sort = np.argsort(b_orig)
             left = np.ceil(p*(truncation/2)).astype(int)
             right = (p-np.ceil(p*(truncation/2)).astype(int))
-            b_plot = b_sort[np.union1d(np.arange(0,left),
-                                       np.arange(right,p))]
-            x_labels = np.union1d(x_plot[ind_sort[0:left]],
-                                x_plot[ind_sort[right:p]])
+            ind_plot = ind_sort[np.union1d(np.arange(0,left),
+                                           np.arange(right,p))]
+            b_plot = b_orig[ind_plot]
+            x_labels = x_plot[ind_plot]
             x_plot = np.arange(0,len(x_labels))
             ax1.bar(x_plot,b_plot,color=self.colors[2],edgecolor=self.colors[4],tick_label=x_labels)
         else:
-- 
2.43.0


From f78b70130e6d2d3dc4f9aaa76bed1fecfdc03219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 52/85] fix: coefficient plot accepts column names as list or
 tuple

---
 src/direpack/plot/sprm_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 7200701..beea223 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -163,8 +163,8 @@ class sprm_plot(sprm):
         ax1 = fig.add_subplot(111)
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
-            x_plot = columns[self.res_sprm.non_zero_scale_vars_]
-            x_labels = columns[self.res_sprm.non_zero_scale_vars_]
+            x_plot = np.asarray(columns)[self.res_sprm.non_zero_scale_vars_]
+            x_labels = np.asarray(columns)[self.res_sprm.non_zero_scale_vars_]
         else:
             x_plot = np.arange(0,p)
        
-- 
2.43.0


From 543309a346cb7c42ee22ba500520232ad986c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:16 +0000
Subject: [PATCH 53/85] fix: number of components passed to ppdire fit does not
 overwrite the n_components setting

---
 src/direpack/ppdire/ppdire.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 416a37e..617d043 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -227,7 +227,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             h = self.n_components
         else:
             h = kwargs.pop('h')
-            self.n_components = h
             
         if 'dmetric' not in kwargs:
             dmetric = 'euclidean'
-- 
2.43.0


From 9935f0a8e8568128ed693ed2f0ebff3fed08e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:46 +0000
Subject: [PATCH 54/85] fix: ball and shell radial functions keep the case on
 the cutoff irrespective of rounding

---
 src/direpack/preprocessing/_gsspp_utils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/direpack/preprocessing/_gsspp_utils.py b/src/direpack/preprocessing/_gsspp_utils.py
index 173e6ba..7cf24ff 100644
--- a/src/direpack/preprocessing/_gsspp_utils.py
+++ b/src/direpack/preprocessing/_gsspp_utils.py
@@ -71,9 +71,8 @@ def ball(dd, p, n):
       xi: radial function
     """
     
-    dWH = np.power(dd,2/3) 
-    dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    d_hmed = np.power(dWH_hmed,3/2)
+    # no transformation back and forth: it could round the cutoff below the case it came from
+    d_hmed = np.sort(dd,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     idx = np.where(dd > d_hmed)[0]
     xi = np.ones((n,1))
     xi[idx] =  0
@@ -94,13 +93,11 @@ def shell(dd, p, n) :
     dWH = np.power(dd,2/3) 
     dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     dWH_hmad = np.sort(np.abs(dWH - dWH_hmed),axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    cutoff1 = np.power(np.maximum(0, dWH_hmed - dWH_hmad),3/2)
-    cutoff2 = np.power(dWH_hmed + dWH_hmad,3/2)
-    idxlow = np.where(dd < cutoff1)[0] 
-    idxhigh = np.where(dd > cutoff2)[0] 
+    # cases further than hmad from hmed, on the scale these have been estimated on, 
+    # so that the case that determines hmad is in the shell irrespective of rounding 
+    idx = np.where(np.abs(dWH - dWH_hmed) > dWH_hmad)[0]
     xi = np.ones((n,1))
-    xi[idxlow] = 0
-    xi[idxhigh] = 0
+    xi[idx] = 0
     return(xi)
 
 
@@ -118,7 +115,7 @@ def linear_redescending(dd, p,n):
     dWH = np.power(dd,2/3) 
     dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     dWH_hmad = np.sort(np.abs(dWH - dWH_hmed),axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    d_hmed = dWH_hmed**(3/2)
+    d_hmed = np.sort(dd,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     cutoff = (dWH_hmed + 1.4826 * dWH_hmad)**(3/2)
     idxmid = np.where(np.logical_and(dd > d_hmed,dd <= cutoff))[0]
     idxhigh = np.where(dd > cutoff)[0]
-- 
2.43.0


From 7dde3a9278db54954ba59b73bf9442c3446010e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:20 +0000
Subject: [PATCH 55/85] fix: linear redescending radial function does not cut
 off cases at the median norm due to rounding

---
 src/direpack/preprocessing/_gsspp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_gsspp_utils.py b/src/direpack/preprocessing/_gsspp_utils.py
index 7cf24ff..3b543ba 100644
--- a/src/direpack/preprocessing/_gsspp_utils.py
+++ b/src/direpack/preprocessing/_gsspp_utils.py
@@ -116,7 +116,7 @@ def linear_redescending(dd, p,n):
     dWH_hmed = np.sort(dWH,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     dWH_hmad = np.sort(np.abs(dWH - dWH_hmed),axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
     d_hmed = np.sort(dd,axis=0)[int(np.floor((n + p + 1) / 2))-1][0]
-    cutoff = (dWH_hmed + 1.4826 * dWH_hmad)**(3/2)
+    cutoff = np.maximum((dWH_hmed + 1.4826 * dWH_hmad)**(3/2),d_hmed)
     idxmid = np.where(np.logical_and(dd > d_hmed,dd <= cutoff))[0]
     idxhigh = np.where(dd > cutoff)[0]
     xi = np.ones((n,1))
-- 
2.43.0


From 4b0c92ab0d24785ac8d539962dd60be2a90b529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 56/85] fix: dicomo standard deviation of constant data is
 zero, not NaN

---
 src/direpack/dicomo/dicomo.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 24df1cf..d163a93 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -235,8 +235,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                 xmom = trim_mom(x,x,locest,order,trimming,option,biascorr) 
                 self.x_moment_ = xmom
                 
-                if self.mode in ('std','skew','kurt'):
-                    x2mom = trim_mom(x,x,locest,2,trimming,option,biascorr and self.mode=='std')
+                if self.mode == 'std':
+                    xmom = np.sqrt(xmom)
+                elif self.mode in ('skew','kurt'):
+                    x2mom = trim_mom(x,x,locest,2,trimming,option,False)
                     xmom /= (x2mom**num_power) 
                     if biascorr:
                         if self.mode == 'skew':
@@ -389,7 +391,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                         
                     self.x_moment_ = xmom
                     
-                    if self.mode in ('std','skew','kurt'):
+                    if self.mode == 'std':
+                        xmom = np.sqrt(xmom)
+                    elif self.mode in ('skew','kurt'):
                         x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
-- 
2.43.0


From 463e3d6b9d7b26605e108c5ef4fe6e25bc0b1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:24 +0000
Subject: [PATCH 57/85] fix: bias corrected co-kurtosis corrects the
 standardised co-moment and equals the kurtosis for y = x

---
 src/direpack/dicomo/dicomo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d163a93..44170b7 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -284,12 +284,9 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                     
                 if self.mode in ('cok','cos'):
-                    x2sd = np.sqrt(trim_mom(x,x,locest,2,trimming,option,biascorr))
-                    y2sd = np.sqrt(trim_mom(y,y,locest,2,trimming,option,biascorr))
-                        
-                    if ((self.mode == 'cok') and biascorr): # biascorr is only exact if standardized
-                        como -= como/(ntrim**2)
-                        como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
+                    # the co-kurtosis correction below applies to the biased standard deviations
+                    x2sd = np.sqrt(trim_mom(x,x,locest,2,trimming,option,biascorr and self.mode == 'cos'))
+                    y2sd = np.sqrt(trim_mom(y,y,locest,2,trimming,option,biascorr and self.mode == 'cos'))
 
                 
                 if mode in ['corr','continuum']:
@@ -453,6 +450,9 @@ class dicomo(_BaseComposition,BaseEstimator):
             iter_stop_1 = order - option
             como /= np.power(x2sd,iter_stop_1)
             como /= np.power(y2sd,iter_stop_2)
+            if self.mode == 'cok' and self.est == 'arithmetic' and biascorr:
+                como -= como/(ntrim**2)
+                como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
             if ((self.mode == 'cok') and not Fisher): # Not very meaningful for co-moment
                 como += 3
             self.moment_=como
-- 
2.43.0


From db075f92117417decf6b99ae8bcf06bb1f432801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:55 +0000
Subject: [PATCH 58/85] fix: fast bias corrected distance covariance agrees
 with the naive one when the squared estimate is negative

---
 src/direpack/dicomo/dicomo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 44170b7..a8c5593 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -346,9 +346,9 @@ class dicomo(_BaseComposition,BaseEstimator):
             elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
-                        xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
+                        xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
                     else:
-                        xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                        xmom = np.sqrt(abs(dc.distance_covariance_sqr(x,x)))
                     if self.mode == 'std':
                         xmom = np.sqrt(xmom)
                     self.moment_ = xmom
@@ -360,17 +360,17 @@ class dicomo(_BaseComposition,BaseEstimator):
                         n1 = len(y)
                     
                     if biascorr:
-                        como = np.sqrt(dc.u_distance_covariance_sqr(x,y))
+                        como = np.sqrt(abs(dc.u_distance_covariance_sqr(x,y)))
                     else:
-                        como = np.sqrt(dc.distance_covariance_sqr(x,y))
+                        como = np.sqrt(abs(dc.distance_covariance_sqr(x,y)))
                     if mode=='com':
                         self.co_moment_ = como
                         self.moment_ = como
                     elif mode in ['corr','continuum','cos','cok']:
                         if biascorr:
-                            ymom = np.sqrt(dc.u_distance_covariance_sqr(y,y))
+                            ymom = np.sqrt(abs(dc.u_distance_covariance_sqr(y,y)))
                         else:
-                            ymom = np.sqrt(dc.distance_covariance_sqr(y,y))
+                            ymom = np.sqrt(abs(dc.distance_covariance_sqr(y,y)))
                         self.y_moment_ = ymom
                         
             
-- 
2.43.0


From 1cf7530d7fb0983e2a018d1411225e7f3c9a67a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:40 +0000
Subject: [PATCH 59/85] fix: slicing methods use the slices or classes the
 response has

---
 src/direpack/sudire/_sudire_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 781d1c7..7606d27 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -225,6 +225,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
@@ -289,6 +290,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     for i in range(n_slices):
         prob.append(len(ydis[ydis == ylabel[i]]) / n)
@@ -360,6 +362,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
+    n_slices = len(ylabel)
     prob = []
     exy = []
 
-- 
2.43.0


From 4463dd2534d953e401cf1c64bb8a2229bf6f0829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:48 +0000
Subject: [PATCH 60/85] fix: sudire without centring accepts data frames

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index b5db266..0da26c5 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -311,7 +311,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 mX = trim_mean(X, self.trimming, axis=0)
                 sX = np.sqrt(np.diag(varmatx))
         else:
-            Xs = X0
+            Xs = X
             mX = np.zeros((1, p))
             sX = np.ones((1, p))
         if self.scale_data:
-- 
2.43.0


From ae3a1320d24de64e0c683b2af40e484b072d517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:39 +0000
Subject: [PATCH 61/85] fix: capi uses its current projection index arguments
 when fitted again

---
 src/direpack/ppdire/capi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 517667f..7a7f6c9 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -67,7 +67,6 @@ class capi(_BaseComposition, BaseEstimator):
         self.pi_arguments = pi_arguments
         self.weights = weights
         self.centring = centring
-        self.most = self.projection_index(**self.pi_arguments)
         self.scaling = scaling
         self.options = options
         self.capi_index_ = None
@@ -76,6 +75,7 @@ class capi(_BaseComposition, BaseEstimator):
 
     def fit(self, x, y, **kwargs):
 
+        self.most = self.projection_index(**self.pi_arguments)
         if self.scaling:
             order_kwargs = ["cov", "cos", "cok"]
         else:
-- 
2.43.0


From 062876af40ae81e63c474ca1b94e3c8bf38c4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:52 +0000
Subject: [PATCH 62/85] fix: scaleTau2 accepts integer data

---
 src/direpack/preprocessing/_preproc_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 5630bdb..bdbc074 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -246,7 +246,7 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
         the scale estimate
     """
 
-    x = copy.deepcopy(x0)
+    x = np.array(x0, dtype="float64")
     n, p = x.shape
     if np.isnan(x).any():
         summ = np.nansum
-- 
2.43.0


From 5ba7a1155ead02f6aa456f7c034db3f28e28f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 63/85] fix: ppdire and sudire accept integer and object arrays
 without centring

---
 src/direpack/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 2d42ea0..7add660 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -18,6 +18,8 @@ def convert_X_input(X):
 
     if type(X) == ps.core.frame.DataFrame:
         X = X.to_numpy().astype('float64')
+    elif type(X) == np.ndarray and X.dtype.kind in 'biuO':
+        X = X.astype('float64')
     return(X)
 
 
@@ -25,6 +27,8 @@ def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
         y = y.to_numpy().astype('float64')
+    elif type(y) == np.ndarray and y.dtype.kind in 'biuO':
+        y = y.astype('float64')
     return(y)
 
 
-- 
2.43.0


From fc73e98ca08986a01d0cde270e6d0a0bc3ee061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 64/85] fix: dicomo accepts data frames, series and object
 arrays for both variables in every mode

---
 src/direpack/dicomo/dicomo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index a8c5593..ce4818a 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -12,6 +12,7 @@ from sklearn.base import BaseEstimator
 from sklearn.utils.metaestimators import _BaseComposition
 from statsmodels import robust as srs
 from ._dicomo_utils import *
+from ..utils.utils import convert_y_input
 import dcor as dc
 # Optional: if Ballcov required, import Ball 
 # import Ball
@@ -206,6 +207,10 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             option = 0
             
+        x = convert_y_input(x)
+        if 'y' in kwargs:
+            kwargs['y'] = convert_y_input(kwargs.get('y'))
+        
         n = len(x)
         ntrim = round(n * (1-trimming)) 
         
-- 
2.43.0


From 6a055f121400cf4543b8cec6cc81787923b36696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:47 +0000
Subject: [PATCH 65/85] fix: Hampel weights with an infinite rejection point
 (probp3 = 1)

---
 src/direpack/sprm/_m_support_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 21b23ac..f1584f4 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -29,9 +29,12 @@ def Hampel(x, probct, hampelb, hampelr):
     mid = (x > probct) & (x <= hampelb)
     wx[mid] = probct / abs(x[mid])
     high = (x > hampelb) & (x <= hampelr)
-    wx[high] = np.divide(
-        probct * (hampelr - x[high]), (hampelr - hampelb) * abs(x[high])
-    )
+    if np.isinf(hampelr):
+        wx[high] = probct / abs(x[high])
+    else:
+        wx[high] = np.divide(
+            probct * (hampelr - x[high]), (hampelr - hampelb) * abs(x[high])
+        )
     wx[x > hampelr] = 0
     wx[np.isnan(x)] = np.nan
     return wx
-- 
2.43.0


From c1015c934f8de51dfd08df5b8f14955060214326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:47 +0000
Subject: [PATCH 66/85] fix: ppdire and sudire reject a number of components
 below one

---
 src/direpack/ppdire/ppdire.py | 2 ++
 src/direpack/sudire/sudire.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 617d043..741f454 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -305,6 +305,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         trimming = self.trimming
         
         # Check dimensions 
+        if h < 1:
+            raise(MyException('number of components must be at least one'))
         if h > min(n,p):
             raise(MyException('number of components cannot exceed number of samples'))
             
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 0da26c5..f43b11d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -257,6 +257,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         trimming = self.trimming
 
         # Check dimensions
+        if self.n_components < 1:
+            raise (MyException("number of components must be at least one"))
         if self.n_components > min(n, p):
             raise (
                 MyException(
-- 
2.43.0


From c4bf2dc2b7d7e847fb73e8468748987c6502a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:47 +0000
Subject: [PATCH 67/85] fix: get_params(deep=True) with a projection index
 class as parameter

---
 src/direpack/ppdire/capi.py   | 2 +-
 src/direpack/ppdire/ppdire.py | 2 +-
 src/direpack/sudire/sudire.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 7a7f6c9..b2b8dac 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -153,7 +153,7 @@ class capi(_BaseComposition, BaseEstimator):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
+            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + "__" + k, val) for k, val in deep_items)
             out[key] = value
diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 741f454..a333b8c 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -857,7 +857,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, 'get_params'):
+            if deep and hasattr(value, 'get_params') and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + '__' + k, val) for k, val in deep_items)
             out[key] = value
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index f43b11d..f504260 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -704,7 +704,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         out = dict()
         for key in self._get_param_names():
             value = getattr(self, key, None)
-            if deep and hasattr(value, "get_params"):
+            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                 deep_items = value.get_params().items()
                 out.update((key + "__" + k, val) for k, val in deep_items)
             out[key] = value
-- 
2.43.0


From 873eebbd074366dfcce2d45d421189615b857f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:47 +0000
Subject: [PATCH 68/85] fix: ipopt wrapper's approximate gradient accepts
 keyword arguments of the objective

---
 src/direpack/ipopt_temp/ipopt_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index cb887d2..dccbc83 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -56,7 +56,7 @@ class IpoptProblemWrapper(object):
             raise NotImplementedError('Using hessian matrixes is not yet implemented!')
         if jac is None:
             #fun = FunctionWithApproxJacobian(fun, epsilon=eps, verbose=False)
-            jac = lambda x0, *args, **kwargs: approx_fprime(x0, fun, eps, *args, **kwargs)
+            jac = lambda x0, *args, **kwargs: approx_fprime(x0, lambda x: fun(x, *args, **kwargs), eps)
         elif jac is True:
             self.fun_with_jac = fun
         elif not callable(jac):
-- 
2.43.0


From aaa55c99f8db6c25a885f3bc72ab2e542cdbb35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:47 +0000
Subject: [PATCH 69/85] fix: plot_yyp takes the observed values by position,
 whatever their index labels

---
 src/direpack/plot/ppdire_plot.py | 6 ++----
 src/direpack/plot/sprm_plot.py   | 6 ++----
 src/direpack/plot/sudire_plot.py | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index b61f2ad..0d70000 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -62,8 +62,7 @@ class ppdire_plot(ppdire):
         ax1 = fig.add_subplot(111)
         if (not(onlyval)):
             ytruec = self.res_ppdire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ytruec = np.array(ytruec).reshape(-1).astype('float64')
             ypredc = np.array(self.res_ppdire.fitted_).T.reshape(-1)
             labelcr = label + ' Training'
             ax1.scatter(ytruec, ypredc, c=self.colors[2], label=labelcr,
@@ -75,8 +74,7 @@ class ppdire_plot(ppdire):
             if (len(Xn)==0):
                 ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_ppdire.predict(Xn)
             ypredv = np.array(ypredv).reshape(-1).astype('float64')
             labelvr = label + ' Test'   
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index beea223..a024040 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -88,8 +88,7 @@ class sprm_plot(sprm):
         ax1 = fig.add_subplot(111)
         if (not(onlyval)):
             ytruec = self.res_sprm.y
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ytruec = np.array(ytruec).reshape(-1).astype('float64')
             ypredc = np.array(self.res_sprm.fitted_).T.reshape(-1)
             labelcr = label[0] + ' Training' + ' Regular'
             labelcm = label[0] + ' Training' + ' Moderate'
@@ -109,8 +108,7 @@ class sprm_plot(sprm):
             if (len(Xn)==0):
                 ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_sprm.predict(Xn)
             ypredv = np.array(ypredv).reshape(-1).astype('float64')
             wv = self.res_sprm.weightnewx(Xn)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index ac39ebb..4e0250b 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -62,8 +62,7 @@ class sudire_plot(sudire):
         ax1 = fig.add_subplot(111)
         if (not(onlyval)):
             ytruec = self.res_sudire.y0
-            if len(ytruec.shape) >1:
-                ytruec = np.array(ytruec).reshape(-1).astype('float64')
+            ytruec = np.array(ytruec).reshape(-1).astype('float64')
             ypredc = np.array(self.res_sudire.ols_obj_.fittedvalues).T.reshape(-1)
             
             ax1.scatter(ytruec, ypredc, c=self.colors[2], label=label,
@@ -75,8 +74,7 @@ class sudire_plot(sudire):
             if (len(Xn)==0):
                 ValueError('In onlyval=True mode, new cases Xn need to be provided')
         if not(len(Xn)==0):
-            if len(ytruev.shape) >1:
-                ytruev = np.array(ytruev).reshape(-1).astype('float64')
+            ytruev = np.array(ytruev).reshape(-1).astype('float64')
             ypredv = self.res_sudire.predict(Xn)
             ypredv = np.array(ypredv).reshape(-1).astype('float64')
                 
-- 
2.43.0


From 1f7b063cc51cee9f32ebeb1f5950b7431a790373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 70/85] fix: nanmatdot returned the transpose of the product

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 7add660..1abbb1a 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -121,6 +121,6 @@ def nanmatdot(X, Y):
             return nandot(X, Y)
         else:
             product = [[np.nansum(np.multiply(X[i, :], Y[:, j]))
-                        for i in range(p)] for j in range(q)]
+                        for j in range(q)] for i in range(p)]
 
             return np.array(product)
-- 
2.43.0


From 355098012ce20094f4b596b57808fdd3a92a0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 71/85] fix: sudire.fit ignored the estimator's dmetric setting

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index f504260..d97e561 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -231,7 +231,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Collect optional fit arguments
 
         if "dmetric" not in kwargs:
-            dmetric = "euclidean"
+            dmetric = self.dmetric
         else:
             dmetric = kwargs.get("dmetric")
         if "biascorr" not in kwargs:
-- 
2.43.0


From 1ada974a0694d9cb397d4f9f29cdddfe983f5b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:05 +0000
Subject: [PATCH 72/85] fix: grid search skips directions whose projection
 index is undefined

---
 src/direpack/ppdire/_ppdire_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/_ppdire_utils.py b/src/direpack/ppdire/_ppdire_utils.py
index 7095569..4201639 100644
--- a/src/direpack/ppdire/_ppdire_utils.py
+++ b/src/direpack/ppdire/_ppdire_utils.py
@@ -94,7 +94,7 @@ def gridplane(X,most,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
         
-    maximo = np.max(meas)
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
@@ -179,7 +179,7 @@ def gridplane_2(X,most,q,div,pi_arguments={},**kwargs):
         meas = [most.fit(tj[:,i],**pi_arguments) 
         for i in np.arange(0,pi_arguments['ndir'])]
 
-    maximo = np.max(meas)
+    maximo = np.nanmax(meas)
     indmax = np.where(meas == maximo)[0]
     if len(indmax)>0:
         indmax = indmax[0]
-- 
2.43.0


From 47562a82cd9fa4250fd413287776be99520b68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:05 +0000
Subject: [PATCH 73/85] fix: sprm removes predictors for zero scale only,
 whatever their units

---
 src/direpack/sprm/sprm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 7539b0a..35db044 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -228,7 +228,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "y_sca_", sy)
         ys = np.array(ys).reshape(-1)
 
-        zero_scale = np.where(sX < 1e-5)[0]
+        # zero up to rounding, irrespective of the units of the variable
+        zero_scale = np.where(sX <= 10 * np.finfo(float).eps * np.max(np.abs(X), axis=0))[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
             if type(columns) != bool:
-- 
2.43.0


From 6881000df4964b8b64cb72401e8f8d90b22de6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:40 +0000
Subject: [PATCH 74/85] fix: equal values have exactly their own mean and no
 deviation, whatever the rounding

---
 src/direpack/preprocessing/_preproc_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index bdbc074..45f6898 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -83,7 +83,8 @@ def mean(X, trimming=0):
         # Returns all NaN if missings in X
         m = sps.trim_mean(X, trimming, 0)
 
-    return m
+    # rounding must not move the mean of equal values
+    return np.minimum(np.maximum(m, np.nanmin(X, axis=0)), np.nanmax(X, axis=0))
 
 
 def std(X, trimming=0):
@@ -103,7 +104,9 @@ def std(X, trimming=0):
             np.square(X - sps.trim_mean(X, trimming, 0)), trimming, 0
         )
         s = np.sqrt(var)
-    return s
+    # nor leave them a deviation
+    spread = np.nanmax(X, axis=0) != np.nanmin(X, axis=0)
+    return s * np.array(spread).reshape(np.shape(s))
 
 
 def _euclidnorm(x):
-- 
2.43.0


From c3504163555ac727e954a59b1d263b3f4d1c62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:40 +0000
Subject: [PATCH 75/85] fix: tau scale of a column with missing cells averages
 over the observed cells

---
 src/direpack/preprocessing/_preproc_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 45f6898..9c636d4 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -253,6 +253,7 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
     n, p = x.shape
     if np.isnan(x).any():
         summ = np.nansum
+        n = np.sum(~np.isnan(x)) / p
     else:
         summ = np.sum
     medx = median(x)
-- 
2.43.0


From 8a2d2bb4ad82bc514e4f63bbb2a777c7d83a273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 76/85] fix: SIR, SAVE and DR handle discrete labels whose mean
 is not exact

---
 src/direpack/sudire/_sudire_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/_sudire_utils.py b/src/direpack/sudire/_sudire_utils.py
index 7606d27..8731be9 100644
--- a/src/direpack/sudire/_sudire_utils.py
+++ b/src/direpack/sudire/_sudire_utils.py
@@ -221,7 +221,7 @@ def SIR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True
     yless = ydis
     ylabel = []
     for i in range(n):
-        if np.var(yless) != 0:
+        if np.any(yless != yless[0]):
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
@@ -286,7 +286,7 @@ def SAVE(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=Tru
     yless = ydis
     ylabel = []
     for i in range(n):
-        if np.var(yless) != 0:
+        if np.any(yless != yless[0]):
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
@@ -358,7 +358,7 @@ def DR(x, y, n_slices, d, ytype="continuous", center_data=True, scale_data=True)
     yless = ydis
     ylabel = []
     for i in range(n):
-        if np.var(yless) != 0:
+        if np.any(yless != yless[0]):
             ylabel.append(yless[0])
             yless = yless[yless != yless[0]]
     ylabel.append(yless[0])
-- 
2.43.0


From 91e7b41b99f756f1972fb3e9b8c563734c282e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 77/85] fix: dicomo checks center at fit time

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index ce4818a..b8244d1 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -143,6 +143,8 @@ class dicomo(_BaseComposition,BaseEstimator):
             order = kwargs.get('order')
             
         center = self.center
+        if not(center in self.licenter):
+            raise(MyException('Only centring classes allowed are: "mean", "median"'))
         if self.mode == 'var':
             mode = 'mom' 
             order=2
-- 
2.43.0


From f968abfb98fbd346657a29f38c5217363da58e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 78/85] fix: dicomo's fast distance mode honours dmetric and
 reports the moments

---
 src/direpack/dicomo/dicomo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index b8244d1..2426d81 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -350,12 +350,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2 and dmetric=='euclidean'):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(abs(dc.u_distance_covariance_sqr(x,x)))
                     else:
                         xmom = np.sqrt(abs(dc.distance_covariance_sqr(x,x)))
+                    self.x_moment_ = xmom
                     if self.mode == 'std':
                         xmom = np.sqrt(xmom)
                     self.moment_ = xmom
@@ -370,8 +371,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         como = np.sqrt(abs(dc.u_distance_covariance_sqr(x,y)))
                     else:
                         como = np.sqrt(abs(dc.distance_covariance_sqr(x,y)))
+                    self.co_moment_ = como
                     if mode=='com':
-                        self.co_moment_ = como
                         self.moment_ = como
                     elif mode in ['corr','continuum','cos','cok']:
                         if biascorr:
-- 
2.43.0


From 6033e812cc0350b8483dccd1496ad1b71b22843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 79/85] fix: ppdire passes the dmetric fit option on

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index a333b8c..e2238ac 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -422,7 +422,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     'alpha': self.alpha,
                     'trimming': self.trimming,
                     'biascorr': biascorr, 
-                    'dmetric' : 'euclidean',
+                    'dmetric' : dmetric,
                     }
         if option is not None:
             opt_args['option'] = option
@@ -472,7 +472,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                      'ndir': optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
-                     'dmetric' : 'euclidean',
+                     'dmetric' : dmetric,
                      '_stop0c' : stop0c,
                      '_stop0s' : stop0s,
                      '_stop1c' : stop1c,
-- 
2.43.0


From 61bec0b5eedcb68eff2ac3d64f40da47df68f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 80/85] fix: ppdire takes a list of optimizer constraints

---
 src/direpack/ppdire/ppdire.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index e2238ac..9352116 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -591,7 +591,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                               'fun': lambda x: np.linalg.norm(x) -1,
                               }
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    constraint = [constraint,*np.atleast_1d(self.optimizer_constraints)]
                 wi = minimize_ipopt(
                     pp_objective,
                     E[0,:].transpose(),
@@ -605,7 +605,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             elif self.optimizer == 'differential_evolution':
                 constraint = NonlinearConstraint(lambda x: np.linalg.norm(x) -1, lb=0, ub=0)
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    constraint = [constraint,*np.atleast_1d(self.optimizer_constraints)]
                 wi = differential_evolution(
                     pp_objective,
                     [(-1e8,1e8) for i in range(p)],
@@ -627,7 +627,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                               'fun': lambda x: np.linalg.norm(x) -1,
                               }
                 if self.optimizer_constraints is not None: 
-                    constraint = [constraint,self.optimizer_constraints]
+                    constraint = [constraint,*np.atleast_1d(self.optimizer_constraints)]
                 wi = minimize(pp_objective,
                               E[0,:].transpose(),
                               args=(self.most,E,opt_args),
-- 
2.43.0


From 6337ef9bf6debeba26d6e67e7f9fae2581196a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 81/85] fix: snipls checks eta at fit time

---
 src/direpack/sprm/snipls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index f8bc9a3..fc80447 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,6 +112,7 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
+        assert self.eta >= 0 and self.eta < 1,  "eta needs to be in [0,1)"
         columns = self.columns
         if type(columns) is list:
             columns = np.array(columns)
-- 
2.43.0


From 01f1019d3d018e35526d2a39a78ed78a7f28069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 82/85] fix: sudire reports the response location and scale

---
 src/direpack/sudire/sudire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index d97e561..55c9864 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -587,6 +587,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "whitening_", K)
         setattr(self, "x_loc_", mX)
         setattr(self, "x_sca_", sX)
+        if flag != "one-block":
+            setattr(self, "y_loc_", my)
+            setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
         if self.return_scaling_object and self.center != "mean":
-- 
2.43.0


From 86b8f60ebb882caf619a90a856cd6e328c32b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:06 +0000
Subject: [PATCH 83/85] fix: single precision input is promoted to double

---
 src/direpack/utils/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 1abbb1a..32c0ea7 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -18,8 +18,8 @@ def convert_X_input(X):
 
     if type(X) == ps.core.frame.DataFrame:
         X = X.to_numpy().astype('float64')
-    elif type(X) == np.ndarray and X.dtype.kind in 'biuO':
-        X = X.astype('float64')
+    elif type(X) == np.ndarray and X.dtype.kind in 'biufO':
+        X = X.astype('float64', copy=False)
     return(X)
 
 
@@ -27,8 +27,8 @@ def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
         y = y.to_numpy().astype('float64')
-    elif type(y) == np.ndarray and y.dtype.kind in 'biuO':
-        y = y.astype('float64')
+    elif type(y) == np.ndarray and y.dtype.kind in 'biufO':
+        y = y.astype('float64', copy=False)
     return(y)
 
 
@@ -70,8 +70,8 @@ def _check_input(X):
     if(type(X) in (np.matrix, ps.core.frame.DataFrame, ps.core.series.Series)):
         X = np.array(X)
 
-    if (X.dtype == np.dtype('O')):
-        X = X.astype('float64')
+    if (X.dtype.kind in 'fO'):
+        X = X.astype('float64', copy=False)
 
     if X.ndim == 1:
         X = X.reshape((1, -1))
-- 
2.43.0


From f0cf0f72542dc0e0c3b7e54a1df8e5086f130569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:13 +0000
Subject: [PATCH 84/85] fix: a refit forgets results of the earlier fit which
 it does not produce

---
 src/direpack/dicomo/dicomo.py | 4 ++++
 src/direpack/ppdire/ppdire.py | 6 ++++++
 src/direpack/sudire/sudire.py | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 2426d81..3d3ef9e 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -142,6 +142,10 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        # Forget the moments of an earlier fit which this one does not calculate
+        for result in ('moment_','x_moment_','y_moment_','co_moment_'):
+            self.__dict__.pop(result,None)
+
         center = self.center
         if not(center in self.licenter):
             raise(MyException('Only centring classes allowed are: "mean", "median"'))
diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 9352116..17b7cdc 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -714,6 +714,12 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 mX = np.zeros(X0.shape[1])
                 sX = np.ones(X0.shape[1])
         
+        # Forget the results of an earlier fit which this one does not produce
+        for result in ("coef_","intercept_","coef_scaled_","intercept_scaled_",
+                       "residuals_","fitted_","y_loadings_","y_loc_","y_sca_",
+                       "whitening_","mixing_","scaling_object_"):
+            self.__dict__.pop(result,None)
+
         bi = bi.astype("float64")
         if flag != 'one-block':            
             # Calculate scaled and unscaled intercepts
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 55c9864..ad5972a 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -580,6 +580,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Re-adjust estimates to original dimensions if data have been compressed
         if dimensions:
             P = np.matmul(V[:, 0:p], P)
+        # Forget the results of an earlier fit which this one does not produce
+        for result in ("whitening_", "y_loc_", "y_sca_", "scaling_object_"):
+            self.__dict__.pop(result, None)
         setattr(self, "x_loadings_", P)
         setattr(self, "x_scores_", T)
         setattr(self, "proj_mat_", projMat)
-- 
2.43.0


From 774b2334ee4515d936c519902e9eb6fc403cb92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 85/85] fix: plots leave matplotlib's settings alone

---
 src/direpack/plot/ppdire_plot.py |  6 ++----
 src/direpack/plot/sprm_plot.py   | 15 +++++----------
 src/direpack/plot/sudire_plot.py |  6 ++----
 3 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 0d70000..e3015b6 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -58,8 +58,7 @@ class ppdire_plot(ppdire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_ppdire.y0
             ytruec = np.array(ytruec).reshape(-1).astype('float64')
@@ -120,8 +119,7 @@ class ppdire_plot(ppdire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_ppdire.x_scores_)
             labelcr = label + ' Training'
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index a024040..ad67c56 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -84,8 +84,7 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_sprm.y
             ytruec = np.array(ytruec).reshape(-1).astype('float64')
@@ -157,8 +156,7 @@ class sprm_plot(sprm):
         """
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
             x_plot = np.asarray(columns)[self.res_sprm.non_zero_scale_vars_]
@@ -208,8 +206,7 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_sprm.x_scores_)
             labelcr = label[0] + ' Training' + ' Regular'
@@ -288,8 +285,7 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         if (not(onlyval)):
             if mode=='overall':
                 wc = self.res_sprm.caseweights_
@@ -370,8 +366,7 @@ class sprm_plot_cv(GridSearchCV,sprm):
             setattr(self,'cv_score_table_',cv_score_table_)
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         # Filter out rows with NaN values to avoid tricontour errors
         data = self.cv_score_table_.values
         valid_mask = np.isfinite(data[:,2])
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index 4e0250b..e6b0422 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -58,8 +58,7 @@ class sudire_plot(sudire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_sudire.y0
             ytruec = np.array(ytruec).reshape(-1).astype('float64')
@@ -120,8 +119,7 @@ class sudire_plot(sudire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
-        ax1 = fig.add_subplot(111)
+        ax1 = fig.add_subplot(111,facecolor=self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_sudire.x_scores_)
             ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
-- 
2.43.0

