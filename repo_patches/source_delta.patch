From 124a54fc1ca878c609381d1b83f9ba7927b67e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 01/13] fix: accept the documented 'univariate_variable'
 transform type

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fdeac01..0775712 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -485,7 +485,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_transform_type(self, transform_type):
         transform_type = transform_type.lower()
-        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
+        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From aa787ae5205a87705c3994cb3f9d18204450142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 02/13] fix: never shrink too long shapelets below length 2
 (crash with 3 timestamps)

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 0775712..c51b127 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -474,8 +474,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             if n_timestamps < 3:
                 raise ValueError('Input data goint {} timestamps, at least 4 are requiered. Input format should be (n_samples, n_features, n_timestamps)'.format(n_timestamps))
             else:
-                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))
-                shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2
+                warnings.warn("All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}".format(shapelet_lengths.max(), n_timestamps, max(2, n_timestamps//2)))
+                shapelet_lengths[shapelet_lengths > n_timestamps] = max(2, n_timestamps//2)
 
 
         rng = check_random_state(self.random_state)
-- 
2.43.0


From d983b3701c8b31b1a6ed9fe7f099edd78fc3083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 03/13] fix: keep series lengths aligned with the sub-sampled
 series when n_samples is used

---
 convst/transformers/rdst.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index c51b127..973483c 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -215,10 +215,14 @@ class R_DST(BaseEstimator, TransformerMixin):
             id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
             X = X[id_X]
             y = y[id_X]
+            if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+                X_len = X_len[id_X]
         elif self.n_samples > 1.0:
             id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
             X = X[id_X]
             y = y[id_X]
+            if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+                X_len = X_len[id_X]
         
         n_samples, n_features, _ = X.shape
         
-- 
2.43.0


From db457ee044f70b0a18b0b60fb7b6accd79a3935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 04/13] fix: draw the n_samples sub-sample from random_state
 instead of the global generator

---
 convst/transformers/rdst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 973483c..88bf041 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -212,13 +212,13 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
             if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
                 X_len = X_len[id_X]
         elif self.n_samples > 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
             X = X[id_X]
             y = y[id_X]
             if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
-- 
2.43.0


From fa6a3f103c1ae4b175e0c05c54bace06c194b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 05/13] fix: fit no longer overwrites the min_len, max_channels
 and shapelet_lengths options (wrong refit)

---
 convst/transformers/rdst.py | 39 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 88bf041..c6f953c 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -159,10 +159,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
-    def _set_lengths(self):
+    def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
-                return np.floor(self.min_len*self.shapelet_lengths)
+                return np.floor(min_len*self.shapelet_lengths)
             else:
                 return self.shapelet_lengths
         else:
@@ -170,10 +170,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b1 = self.shapelet_lengths_bounds[1]
             
             if isinstance(b0, float):
-                b0 = int(b0*self.min_len)
+                b0 = int(b0*min_len)
             min_l = max(3,b0)
             if isinstance(b1, float):
-                b1 = int(b1*self.min_len)
+                b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
             lengths = np.asarray(list(range(min_l, max_l)))
@@ -203,11 +203,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if self.min_len is None:
-                self.min_len = X_len.min()
+            min_len = self.min_len if self.min_len is not None else X_len.min()
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            self.min_len = X.shape[2]
+            min_len = X.shape[2]
         
         if self.n_samples is None:
             pass
@@ -226,32 +225,30 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        if self.max_channels is None:
-            self.max_channels = n_features
+        max_channels = self.max_channels if self.max_channels is not None else n_features
         
-
-        self.shapelet_lengths = self._set_lengths()
-        
-        shapelet_lengths, seed = self._check_params(self.min_len)
+        shapelet_lengths, seed = self._check_params(
+            min_len, self._set_lengths(min_len)
+        )
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.min_len, X_len, self.prime_dilations
+                self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.max_channels, self.min_len, X_len,
+                self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif self.transform_type == STR_MUTLIVARIATE:
             self.shapelets_ = self.fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
-                self.phase_invariance, self.max_channels, self.prime_dilations
+                self.phase_invariance, max_channels, self.prime_dilations
             )
         elif self.transform_type == STR_UNIVARIATE:
             self.shapelets_ = self.fitter(
@@ -431,7 +428,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps):
+    def _check_params(self, n_timestamps, shapelet_lengths):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -442,6 +439,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
+        shapelet_lengths : array
+            The lengths considered for the shapelets.
 
         Raises
         ------
@@ -464,11 +463,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise TypeError("'n_shapelets' must be an integer (got {})."
                             .format(self.n_shapelets))
 
-        if not isinstance(self.shapelet_lengths, (list, tuple, np.ndarray)):
+        if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
             raise TypeError("'shapelet_lengths' must be a list, a tuple or "
-                            "an array (got {}).".format(self.shapelet_lengths))
+                            "an array (got {}).".format(shapelet_lengths))
         
-        shapelet_lengths = check_array_1D(self.shapelet_lengths).astype(np.int64)
+        shapelet_lengths = check_array_1D(shapelet_lengths).astype(np.int64)
         if not np.all(1 < shapelet_lengths):
             raise ValueError("All the values in 'shapelet_lengths' must be "
                              "greater than 1, but got {} ({} < 1)."
-- 
2.43.0


From 97f3205524c3ac34d199294f67ce537027daf47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 06/13] fix: ensemble weights and predictions use class labels
 instead of class indexes

---
 convst/classifiers/rdst_ensemble.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index eac8523..50a61d5 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -49,9 +49,13 @@ class _internalRidgeCV(RidgeClassifierCV):
             alpha_idx = np.where(self.alphas == self.alpha_)[0]
             cv_vals = self.cv_values_[:, :, alpha_idx]
             if cv_vals.shape[1] == 1:
-                return accuracy_score((cv_vals[:, 0] > 0).astype(int), y_train)
+                return accuracy_score(
+                    self.classes_[(cv_vals[:, 0, 0] > 0).astype(int)], y_train
+                )
             else:
-                return accuracy_score(cv_vals.argmax(axis=1), y_train)
+                return accuracy_score(
+                    self.classes_[cv_vals[:, :, 0].argmax(axis=1)], y_train
+                )
         else:
             raise ValueError(
                 "LOOCV training accuracy is only available with store_cv_values to True"
@@ -259,6 +263,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
 
         self.models = models
+        self.classes_ = models[0]["_internalridgecv"].classes_
         self.model_weights = [
             model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
             for model in models
@@ -275,4 +280,4 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
         # n_samples, n_models
         preds_proba = np.asarray(preds_proba).sum(axis=0)
-        return preds_proba.argmax(axis=1)
+        return self.classes_[preds_proba.argmax(axis=1)]
-- 
2.43.0


From 6d8bd9b381c90b1a48844fcdab1080bc1b5097e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 07/13] fix: draw the seed of each ensemble member before it is
 fitted, in a fixed order

---
 convst/classifiers/rdst_ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 50a61d5..6d52771 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -250,7 +250,9 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         percentiles=self.percentiles,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
-                        random_state=self.random_state,
+                        random_state=self.random_state.randint(
+                            np.iinfo(np.int32).max
+                        ),
                     ),
                     _internalRidgeCV(
                         alphas=self.alphas_ridge,
-- 
2.43.0


From c1bad56f2e36ab82e1ac5957a1b4f7d7ff262ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 08/13] fix: match whole multivariate series, not single
 channels, when building fold indexes

---
 convst/utils/experiments_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3f89a64..2b8feae 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -157,8 +157,8 @@ class _sklearn_cv:
                 X_train, y_train, X_test, y_test = _resample(
                     X_train_0, y_train_0, X_test_0, y_test_0, i
                 )
-            idx_Train = [np.where((X == X_train[j]).all(axis=2))[0][0] for j in range(X_train.shape[0])]
-            idx_Test = [np.where((X == X_test[j]).all(axis=2))[0][0] for j in range(X_test.shape[0])]
+            idx_Train = [np.where((X == X_train[j]).all(axis=(1, 2)))[0][0] for j in range(X_train.shape[0])]
+            idx_Test = [np.where((X == X_test[j]).all(axis=(1, 2)))[0][0] for j in range(X_test.shape[0])]
             yield idx_Train, idx_Test
     
     def get_n_splits(self, X=None, y=None, groups=None):
-- 
2.43.0


From 6f1a503b1e762cddb2d8849751777b427faad1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 09/13] fix: raise the intended NotImplementedError when
 interpreting multivariate transformers

---
 convst/interpreters/rdst_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2205679..2cf02f7 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -227,13 +227,13 @@ class RDST_interpreter():
             )
 
     def _get_params(self, id_shapelet):
-        values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
         phase = self.RDST.phase_invariance
         if self.RDST.transform_type in ['multivariate', 'multivariate_variable']:
             raise NotImplementedError(
                 'Interpreter is not yet implemented for multivariate data'
             )
         else:
+            values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
             length_ = lengths[id_shapelet]
             values_ = values[id_shapelet, :length_]
             dilation = dilations[id_shapelet]
-- 
2.43.0


From d138e731e6d036c4f20fd8609c5cbce269449682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 10/13] fix: prime dilations up to the exact bound (rounding of
 2**log2(n) excluded the largest prime)

---
 convst/transformers/_multivariate_same_length.py     | 7 ++++---
 convst/transformers/_multivariate_variable_length.py | 7 ++++---
 convst/transformers/_univariate_same_length.py       | 7 ++++---
 convst/transformers/_univariate_variable_length.py   | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index ba301be..93d41e1 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -66,14 +66,15 @@ def M_SL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index 025781c..c2b6e85 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -66,14 +66,15 @@ def M_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index 292d6d5..852b9b5 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -59,14 +59,15 @@ def U_SL_init_random_shapelet_params(
     # Lengths of the shapelets
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index 13e5afd..7402d51 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -62,14 +62,15 @@ def U_VL_init_random_shapelet_params(
     lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)
 
     # Dilations
-    upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))
+    max_dilations = floor_divide(n_timestamps - 1, lengths - 1)
+    upper_bounds = log2(max_dilations)
     if prime_scheme:
-        primes = prime_up_to(int64(2**upper_bounds.max()))
+        primes = prime_up_to(max_dilations.max())
         dilations = zeros(n_shapelets, dtype=int64)
         #TODO : optimize to avoid recomputing choice log for all upper bounds
         #Loop on each unique upper bounds ?
         for i in prange(n_shapelets):
-            shp_primes = primes[primes<=int64(2**upper_bounds[i])]
+            shp_primes = primes[primes<=max_dilations[i]]
             dilations[i] = shp_primes[choice_log(shp_primes.shape[0], 1)[0]]
     else:
         powers = zeros(n_shapelets)
-- 
2.43.0


From 7c7d1bf7edae97c9dd108e428306a0708269bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 11/13] fix: select the variant for arrays of any numeric dtype
 when transform_type is auto

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index c6f953c..ea4327d 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -320,7 +320,7 @@ class R_DST(BaseEstimator, TransformerMixin):
                 return STR_MULTIVARIATE_VARIABLE
             else:
                 return STR_UNIVARIATE_VARIABLE
-        elif X.dtype == np.int_ or X.dtype == np.float_:
+        elif np.issubdtype(X.dtype, np.number):
             #Even length
             X = check_array_3D(X)
             if X.shape[1] > 1:
-- 
2.43.0


From c3b6d034efb011410ad3437f7db8a1c4bce03b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 12/13] fix: percentiles must be exactly two values

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index ea4327d..4bcc7eb 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -495,7 +495,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
-        if percentiles.dtype == int or percentiles.dtype == float :
+        if percentiles.shape[0] == 2 and (percentiles.dtype == int or percentiles.dtype == float):
             if percentiles[0] <= percentiles[1]:
                 return percentiles
         raise ValueError('Wrong percetniles parameter value, got {}, expected a numerical array of size 2'.format(percentiles))
-- 
2.43.0


From fff9bb740641b59597cd2c7894647a83695a903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 13/13] fix: the compiled all over an axis handles arrays of
 one row or column

---
 convst/utils/numba_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convst/utils/numba_utils.py b/convst/utils/numba_utils.py
index e557a32..0a3519d 100644
--- a/convst/utils/numba_utils.py
+++ b/convst/utils/numba_utils.py
@@ -18,8 +18,8 @@ def np_all(x, axis=None):
     # ndarray.all with axis arguments for 2D arrays.
     @register_jitable
     def _np_all_axis0(arr):
-        out = np.logical_and(arr[0], arr[1])
-        for v in iter(arr[2:]):
+        out = np.ones(arr.shape[1], dtype=np.bool_)
+        for v in iter(arr):
             for idx, v_2 in enumerate(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
@@ -31,8 +31,8 @@ def np_all(x, axis=None):
 
     @register_jitable
     def _np_all_axis1(arr):
-        out = np.logical_and(arr[:, 0], arr[:, 1])
-        for idx, v in enumerate(arr[:, 2:]):
+        out = np.ones(arr.shape[0], dtype=np.bool_)
+        for idx, v in enumerate(arr):
             for v_2 in iter(v):
                 out[idx] = np.logical_and(v_2, out[idx])
         return out
-- 
2.43.0

