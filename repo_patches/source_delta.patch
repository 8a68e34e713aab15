From cc2dc69cadcdbff225fb3080e390b999af0939e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 001/110] fix: keep the last group of user-provided categories

A pure (binary) or empty (continuous) last group of categorical user_splits
was removed without a bin left to receive its rows, which vanished from the
binning table; a single group could not be fitted at all.
---
 optbinning/binning/binning.py            | 13 ++++++++++---
 optbinning/binning/continuous_binning.py | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..9658d20 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -904,7 +904,10 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            # A single group of user-provided categories is a bin.
+            self._solution = np.full(
+                len(splits), (self.dtype == "categorical" and
+                              self.user_splits is not None), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -1095,7 +1098,7 @@ class OptimalBinning(BaseOptimalBinning):
 
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
+        if n_bins > 1 and np.any(mask_remove):
             if self.divergence in ("hellinger", "triangular"):
                 self._flag_min_n_event_nonevent = True
             else:
@@ -1103,7 +1106,11 @@ class OptimalBinning(BaseOptimalBinning):
 
                 if (self.dtype == "categorical" and
                         self.user_splits is not None):
-                    mask_splits = mask_remove
+                    # The last group closes the partition, so it absorbs the
+                    # preceding group instead of being removed.
+                    mask_splits = np.concatenate([
+                        mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]],
+                        [False]])
                 else:
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..e99806b 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -747,7 +747,10 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            # A single group of user-provided categories is a bin.
+            self._solution = np.full(
+                len(splits), (self.dtype == "categorical" and
+                              self.user_splits is not None), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -929,12 +932,16 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         mask_remove = (n_records == 0)
 
-        if np.any(mask_remove):
+        if n_bins > 1 and np.any(mask_remove):
             self._n_refinements += 1
 
             if (self.dtype == "categorical" and
                     self.user_splits is not None):
-                mask_splits = mask_remove
+                # The last group closes the partition, so it absorbs the
+                # preceding group instead of being removed.
+                mask_splits = np.concatenate([
+                    mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]],
+                    [False]])
             else:
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
-- 
2.43.0


From a1bb8c122dade58f4a20c8548ef909d73d7cc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 002/110] fix: fit continuous target when no user split leaves
 two non-empty prebins

---
 optbinning/binning/continuous_binning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index e99806b..583e646 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -900,7 +900,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
-- 
2.43.0


From af02ac251d3a62033bd4de8b8822678329193f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 003/110] fix: fit with an empty list of user_splits

---
 optbinning/binning/binning.py            | 7 ++++---
 optbinning/binning/continuous_binning.py | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 9658d20..2c575df 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -777,9 +777,10 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_nonevent = np.array([])
-                n_event = np.array([])
+                splits, n_nonevent, n_event = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 583e646..fcb1d9c 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -625,10 +625,11 @@ class ContinuousOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_records = np.array([])
-                sums = np.array([])
-                stds = np.array([])
+                [splits, n_records, sums, ssums, stds, min_t, max_t,
+                 n_zeros] = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
-- 
2.43.0


From 34ce862f79c501f822fa61327b3d1fef6fe68000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 004/110] fix: remove debug print when fitting categories below
 the cutoff

---
 optbinning/binning/continuous_binning.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index fcb1d9c..0d8d289 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -872,7 +872,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(y_others):
             if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
                 y_others = y_others * sw_others
 
             self._n_records_cat_others = np.sum(sw_others)
-- 
2.43.0


From 6b0b48b3a28281cdbe9c1a7fc43c71c651015368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 005/110] fix: count a missing value listed in special_codes
 once

---
 optbinning/binning/preprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..4ba66a2 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -213,7 +213,8 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         sw_missing = sample_weight[missing_mask]
         sw_special = []
     else:
-        special_mask = pd.Series(x).isin(_special_codes).values
+        special_mask = (pd.Series(x).isin(_special_codes).values &
+                        ~missing_mask)
 
         clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 7dd5def58a7441f2c578787d3e4d6d6176368627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 006/110] fix: count rows with a missing and a special value
 once in 2D binning

---
 optbinning/binning/multidimensional/preprocessing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 11d4b74..82d9bfd 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -88,7 +88,7 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
         special_mask_y = np.zeros(len(y), dtype=bool)
 
     missing_mask = missing_mask_x | missing_mask_y
-    special_mask = special_mask_x | special_mask_y
+    special_mask = (special_mask_x | special_mask_y) & ~missing_mask
 
     clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 9c6fcf871427a93b5d3f3d95c0fb9a67e8e0be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 007/110] fix: remove empty prebins with hellinger and
 triangular divergences

---
 optbinning/binning/binning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 2c575df..a900ada 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1102,7 +1102,10 @@ class OptimalBinning(BaseOptimalBinning):
         if n_bins > 1 and np.any(mask_remove):
             if self.divergence in ("hellinger", "triangular"):
                 self._flag_min_n_event_nonevent = True
-            else:
+                # Pure prebins are kept, but empty prebins must be removed.
+                mask_remove = (n_nonevent + n_event == 0)
+
+            if np.any(mask_remove):
                 self._n_refinements += 1
 
                 if (self.dtype == "categorical" and
-- 
2.43.0


From d33ebe6c7c006fe322eeb67977b6fa8a674f7da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 008/110] fix: do not modify user_splits and user_splits_fixed
 when fitting

Fitting reordered and shortened the constructor parameters in place, so that
a second fit fixed the wrong splits or failed, and splits were removed from
the unsorted list with a mask computed for the sorted one.
---
 optbinning/binning/binning.py                 | 19 +++++++++++--------
 optbinning/binning/continuous_binning.py      | 15 +++++++++------
 optbinning/binning/multiclass_binning.py      | 17 ++++++++++-------
 .../binning/uncertainty/binning_scenarios.py  | 11 +++++++----
 4 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index a900ada..2665599 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -769,6 +769,7 @@ class OptimalBinning(BaseOptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits_fixed = None
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -799,7 +800,9 @@ class OptimalBinning(BaseOptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = np.asarray(
+                        self.user_splits, dtype=object)[sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -999,7 +1002,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1007,7 +1010,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1016,7 +1019,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1120,8 +1123,8 @@ class OptimalBinning(BaseOptimalBinning):
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
                 if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
+                    user_splits_fixed = self._user_splits_fixed
+                    user_splits = self._user_splits
                     fixed_remove = user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
@@ -1132,8 +1135,8 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(user_splits[fixed_remove]))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                    self._user_splits = user_splits[~mask_splits]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0d8d289..5e2b255 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -617,6 +617,7 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits_fixed = None
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -648,7 +649,9 @@ class ContinuousOptimalBinning(OptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = np.asarray(
+                        self.user_splits, dtype=object)[sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -819,7 +822,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -949,8 +952,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -961,8 +964,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                         .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..c73751f 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -552,6 +552,7 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits_fixed = None
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -569,7 +570,9 @@ class MulticlassOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = np.asarray(
+                    self.user_splits, dtype=object)[sorted_idx]
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -747,7 +750,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -757,7 +760,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -813,8 +816,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -824,8 +827,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                                      .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..87d4bea 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -523,6 +523,7 @@ class SBOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits_fixed = None
         if self.user_splits is not None:
             user_splits = check_array(
                 self.user_splits, ensure_2d=False, dtype=None,
@@ -535,7 +536,9 @@ class SBOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = np.asarray(
+                    self.user_splits, dtype=object)[sorted_idx]
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -702,8 +705,8 @@ class SBOptimalBinning(OptimalBinning):
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self._user_splits_fixed)
-                user_splits = np.asarray(self._user_splits)
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -760,7 +763,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From d42910013add8d5a8e0b248fee3678172dc8fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 009/110] fix: transform unknown categories to the mean of the
 training target

The default value of an unknown category divided the events of all the bins
by the records of the clean bins only (binary), or depended on the value of
metric_special and metric_missing (continuous).
---
 optbinning/binning/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..fc4c36c 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -289,7 +289,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
 
         # Assign unknown category value
         if cat_unknown is None:
-            mean_event_rate = t_n_event / n_records.sum()
+            mean_event_rate = t_n_event / (t_n_event + t_n_nonevent)
             if metric == "woe":
                 cat_unknown = transform_event_rate_to_woe(
                     mean_event_rate, t_n_nonevent, t_n_event)
@@ -424,6 +424,8 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         bins_str = [str(b) for b in bins]
         n_bins = len(bins)
 
+    mean_target = sums.sum() / n_records.sum()
+
     if "empirical" not in (metric_special, metric_missing):
         n_records = n_records[:n_bins]
         sums = sums[:n_bins]
@@ -436,7 +438,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
 
         # Assign unknown category value
         if cat_unknown is None:
-            cat_unknown = sums.sum() / n_records.sum()
+            cat_unknown = mean_target
 
         x_transform = np.full(x.shape, cat_unknown)
     else:
-- 
2.43.0


From 22218e33d6ec1ee4653a7af15d36d5a41a02f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 010/110] fix: apply both bounds when fix_lb and fix_ub are
 given

---
 optbinning/binning/preprocessing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 4ba66a2..a808885 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -250,12 +250,11 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             sw_clean = sw_clean[~mask_outlier]
 
         if fix_lb is not None or fix_ub is not None:
+            mask = np.ones(len(x_clean), dtype=bool)
             if fix_lb is not None:
-                mask = x_clean >= fix_lb
-            elif fix_ub is not None:
-                mask = x_clean <= fix_ub
-            else:
-                mask = (x_clean >= fix_lb) & (x_clean <= fix_ub)
+                mask &= x_clean >= fix_lb
+            if fix_ub is not None:
+                mask &= x_clean <= fix_ub
 
             x_clean = x_clean[mask]
             y_clean = y_clean[mask]
-- 
2.43.0


From 7e152ab95ba4bd286448d241bfd99727af85dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 011/110] fix: do not scale the caller's sample_weight by
 class_weight

---
 optbinning/binning/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index a808885..e5c0f11 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -183,7 +183,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From ea61b6c2888e1eca5403ba3a41b1bcee3b693976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 012/110] fix: count the current sample in the
 Kolmogorov-Smirnov statistic

---
 optbinning/metrics/classification.py | 2 +-
 optbinning/scorecard/plots.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index ab8cd80..9948ebf 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -54,7 +54,7 @@ def ks(y_true, y_pred_proba):
     yy = y_true[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index 1873ac5..e72df9e 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -221,7 +221,7 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     pp = y_pred[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
-- 
2.43.0


From fc01e73971f2e7729a356c7feaa209c535435c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 013/110] fix: empirical event rate of special and missing in
 piecewise binning

The callers pass the number of non-events before the number of events.
---
 optbinning/binning/piecewise/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9ead4b1..2000fae 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -59,8 +59,8 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
 
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
-                            n_event_special, n_nonevent_special,
-                            n_event_missing, n_nonevent_missing,
+                            n_nonevent_special, n_event_special,
+                            n_nonevent_missing, n_event_missing,
                             special_codes, metric, metric_special,
                             metric_missing, check_input=False):
 
-- 
2.43.0


From 5066396718e0e151784ce0571eb3f9cb67c592ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 014/110] fix: fit with the given bounds in
 ContinuousOptimalPWBinning.fit_transform

---
 optbinning/binning/piecewise/continuous_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index b80500a..52b6406 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -242,7 +242,7 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         x_new : numpy array, shape = (n_samples,)
             Transformed array.
         """
-        return self.fit(x, y, check_input).transform(
+        return self.fit(x, y, lb, ub, check_input).transform(
             x, metric_special, metric_missing, lb, ub, check_input)
 
     def transform(self, x, metric_special=0, metric_missing=0,
-- 
2.43.0


From 06353d6d2845b9ac14281713778d4b8ec9377187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 015/110] fix: skip the event rate cuts when other constraints
 limit the merging

The cuts x[i, i] == 0 of the monotonicity constraints only remove dominated
solutions if nothing else forces to split prebins. With bin size, number of
bins, event count, p-value, gamma or fixed split constraints the solvers
returned a suboptimal binning or INFEASIBLE.
---
 optbinning/binning/cp.py  | 28 ++++++++++++++++++++++------
 optbinning/binning/mip.py | 27 +++++++++++++++++++++------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 74e369d..438d05c 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -392,6 +392,22 @@ class BinningCP:
                     if self.max_bin_size is not None:
                         model.Add(bin_size <= self.max_bin_size[s] * x[i, i])
 
+    def _preprocessing_allowed(self):
+        """Whether the event rate cuts of the monotonicity constraints only
+        remove dominated solutions: the remaining constraints must not force
+        to split prebins that the monotonic trend alone would merge.
+        """
+        return (self.min_event_rate_diff == 0 and
+                not self._is_scenario_binning and
+                self.min_n_bins is None and
+                self.min_bin_size is None and self.max_bin_size is None and
+                self.min_bin_n_event is None and
+                self.max_bin_n_event is None and
+                self.min_bin_n_nonevent is None and
+                self.max_bin_n_nonevent is None and
+                self.max_pvalue is None and not self.gamma and
+                self.user_splits_fixed is None)
+
     def add_constraint_monotonic_ascending(self, model, n, D, x, M):
         for i in range(1, n):
             for z in range(i):
@@ -403,7 +419,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._preprocessing_allowed():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -422,7 +438,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._preprocessing_allowed():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -505,7 +521,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._preprocessing_allowed():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -523,7 +539,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._preprocessing_allowed():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -542,7 +558,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._preprocessing_allowed():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -560,7 +576,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._preprocessing_allowed():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3826cbd..0fe781c 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -278,6 +278,21 @@ class BinningMIP:
                 elif self.max_bin_size is not None:
                     solver.Add(bin_size <= self.max_bin_size * x[i, i])
 
+    def _preprocessing_allowed(self):
+        """Whether the event rate cuts of the monotonicity constraints only
+        remove dominated solutions: the remaining constraints must not force
+        to split prebins that the monotonic trend alone would merge.
+        """
+        return (self.min_event_rate_diff == 0 and
+                self.min_n_bins is None and
+                self.min_bin_size is None and self.max_bin_size is None and
+                self.min_bin_n_event is None and
+                self.max_bin_n_event is None and
+                self.min_bin_n_nonevent is None and
+                self.max_bin_n_nonevent is None and
+                self.max_pvalue is None and not self.gamma and
+                self.user_splits_fixed is None)
+
     def add_constraint_monotonic_ascending(self, solver, n, D, x):
         for i in range(1, n):
             for z in range(i):
@@ -289,7 +304,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._preprocessing_allowed():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -308,7 +323,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._preprocessing_allowed():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -395,7 +410,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._preprocessing_allowed():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -413,7 +428,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._preprocessing_allowed():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -432,7 +447,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._preprocessing_allowed():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -450,7 +465,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._preprocessing_allowed():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
-- 
2.43.0


From 31691e27bea6c1cd6f4e1e1b889ba97e361e952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 016/110] fix: relax the concave and convex constraints of
 unused bins

With two of the three bins selected the right-hand side must allow for
-2 * M, otherwise it limits the event rates of any pair of bins.
---
 optbinning/binning/cp.py  | 4 ++--
 optbinning/binning/ls.py  | 4 ++--
 optbinning/binning/mip.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 438d05c..4ddfb6a 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -457,7 +457,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) -
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, model, n, D, x, M):
         for i in range(2, n):
@@ -470,7 +470,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) +
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, model, n, D, x, y, M):
         for i in range(1, n):
diff --git a/optbinning/binning/ls.py b/optbinning/binning/ls.py
index 245ce71..90805fa 100644
--- a/optbinning/binning/ls.py
+++ b/optbinning/binning/ls.py
@@ -264,7 +264,7 @@ class BinningLS:
                         - model.at(DD, i, z[i]) * x[i] +
                         2 * model.at(DD, j, z[j]) * x[j] -
                         model.at(DD, k, z[k]) * x[k] >=
-                        M * (x[i] + x[j] + x[k] - 3))
+                        2 * M * (x[i] + x[j] + x[k] - 3))
 
     def add_constraint_monotonic_convex(self, model, n, DD, D, x, z, M):
         for i in range(2, n):
@@ -274,7 +274,7 @@ class BinningLS:
                         model.at(DD, i, z[i]) * x[i] -
                         2 * model.at(DD, j, z[j]) * x[j] +
                         model.at(DD, k, z[k]) * x[k] >=
-                        M * (x[i] + x[j] + x[k] - 3))
+                        2 * M * (x[i] + x[j] + x[k] - 3))
 
     def add_constraint_monotonic_peak(self, model, n, DD, D, x, z, y, M):
         for i in range(1, n):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 0fe781c..61e4dd7 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -343,7 +343,7 @@ class BinningMIP:
                              + D[j][j] * x[j, j]) -
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, solver, n, D, x):
@@ -358,7 +358,7 @@ class BinningMIP:
                              D[j][j] * x[j, j]) +
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, solver, n, D, x, y):
-- 
2.43.0


From d4036e8212ada4ed5218f9a3b60e85fa1d6b7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 017/110] fix: remove the event rate cuts of the peak and
 valley heuristics

A prebin before the change point can be merged with prebins after it, hence
the cuts removed optimal solutions.
---
 optbinning/binning/cp.py  | 36 ------------------------------------
 optbinning/binning/mip.py | 36 ------------------------------------
 2 files changed, 72 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 4ddfb6a..4b7e2a1 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -520,15 +520,6 @@ class BinningCP:
                     sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                          for j in range(i)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc - 1):
-                if D[i+1][i] - D[i+1][i+1] > 0:
-                    model.Add(x[i, i] == 0)
-                    for j in range(tc - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] > 0:
-                            model.Add(x[i+j, i+j] == 0)
-
         for i in range(tc, n):
             for z in range(tc, i):
                 model.Add(
@@ -538,15 +529,6 @@ class BinningCP:
                     sum([(D[z][j] - D[z][j+1]) * x[z, j]
                          for j in range(z)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc, n - 1):
-                if D[i+1][i] - D[i+1][i+1] < 0:
-                    model.Add(x[i, i] == 0)
-                    for j in range(tc, n - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] < 0:
-                            model.Add(x[i+j, i+j] == 0)
-
     def add_constraint_monotonic_valley_heuristic(self, model, n, D, x, tc, M):
         for i in range(1, tc):
             for z in range(i):
@@ -557,15 +539,6 @@ class BinningCP:
                     sum([(D[z][j] - D[z][j+1]) * x[z, j]
                          for j in range(z)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc - 1):
-                if D[i+1][i] - D[i+1][i+1] < 0:
-                    model.Add(x[i, i] == 0)
-                    for j in range(tc - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] < 0:
-                            model.Add(x[i+j, i+j] == 0)
-
         for i in range(tc, n):
             for z in range(tc, i):
                 model.Add(
@@ -575,15 +548,6 @@ class BinningCP:
                     sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                          for j in range(i)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc, n - 1):
-                if D[i+1][i] - D[i+1][i+1] > 0:
-                    model.Add(x[i, i] == 0)
-                    for j in range(tc, n - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] > 0:
-                            model.Add(x[i+j, i+j] == 0)
-
     def add_constraint_violation(self, model, x, violation_indices):
         for (i, j), (z, l) in violation_indices:
             if j >= 1:
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 61e4dd7..63ddb28 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -409,15 +409,6 @@ class BinningMIP:
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                 for j in range(i)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc - 1):
-                if D[i+1][i] - D[i+1][i+1] > 0:
-                    solver.Add(x[i, i] == 0)
-                    for j in range(tc - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] > 0:
-                            solver.Add(x[i+j, i+j] == 0)
-
         for i in range(tc, n):
             for z in range(tc, i):
                 solver.Add(
@@ -427,15 +418,6 @@ class BinningMIP:
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                 for j in range(z)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc, n - 1):
-                if D[i+1][i] - D[i+1][i+1] < 0:
-                    solver.Add(x[i, i] == 0)
-                    for j in range(tc, n - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] < 0:
-                            solver.Add(x[i+j, i+j] == 0)
-
     def add_constraint_monotonic_valley_heuristic(self, solver, n, D, x, tc):
         for i in range(1, tc):
             for z in range(i):
@@ -446,15 +428,6 @@ class BinningMIP:
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                 for j in range(z)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc - 1):
-                if D[i+1][i] - D[i+1][i+1] < 0:
-                    solver.Add(x[i, i] == 0)
-                    for j in range(tc - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] < 0:
-                            solver.Add(x[i+j, i+j] == 0)
-
         for i in range(tc, n):
             for z in range(tc, i):
                 solver.Add(
@@ -464,15 +437,6 @@ class BinningMIP:
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                 for j in range(i)]) <= 0)
 
-        # Preprocessing
-        if self._preprocessing_allowed():
-            for i in range(tc, n - 1):
-                if D[i+1][i] - D[i+1][i+1] > 0:
-                    solver.Add(x[i, i] == 0)
-                    for j in range(tc, n - i - 1):
-                        if D[i+1+j][i] - D[i+1+j][i+1+j] > 0:
-                            solver.Add(x[i+j, i+j] == 0)
-
     def add_constraint_violation(self, solver, x, violation_indices):
         for (i, j), (z, l) in violation_indices:
             if j >= 1:
-- 
2.43.0


From 8c5759838c31f2e6f04ccf6050b42cd5124647ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 018/110] fix: no event rate cuts in multiclass binning

The cuts only remove dominated solutions for a single class.
---
 optbinning/binning/multiclass_cp.py  | 5 +++++
 optbinning/binning/multiclass_mip.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..874ac4e 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -121,6 +121,11 @@ class MulticlassBinningCP(BinningCP):
         self._x = x
         self._n = n
 
+    def _preprocessing_allowed(self):
+        # A cut that is valid for the event rate of one class can remove the
+        # best solution for the sum of the information values of all classes.
+        return False
+
     def decision_variables(self, model, n, n_classes):
         x = {}
         for i in range(n):
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..eeb38bc 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -124,6 +124,11 @@ class MulticlassBinningMIP(BinningMIP):
         self._n = n
         self._x = x
 
+    def _preprocessing_allowed(self):
+        # A cut that is valid for the event rate of one class can remove the
+        # best solution for the sum of the information values of all classes.
+        return False
+
     def decision_variables(self, solver, n, n_classes):
         x = {}
         for i in range(n):
-- 
2.43.0


From ea4ee39f24a7fa3abe3c6701720888fffa957050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 019/110] fix: min_bin_size and max_bin_size in multiclass
 binning

The number of records per prebin was computed once per class, and building
the constraints raised an exception.
---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 874ac4e..3fa28c9 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index eeb38bc..adef7b0 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
-- 
2.43.0


From 2a13a8b9e994180dbf253440f2b5794edf2f6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 020/110] fix: enforce all documented monotonic trends in
 multiclass binning

concave, convex, peak_heuristic and valley_heuristic were accepted but no
constraint was added to the model.
---
 optbinning/binning/multiclass_binning.py |  6 ++++++
 optbinning/binning/multiclass_cp.py      | 10 ++++++++--
 optbinning/binning/multiclass_mip.py     | 10 ++++++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index c73751f..28f32cb 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -736,6 +736,12 @@ class MulticlassOptimalBinning(OptimalBinning):
                         logger.info("Optimizer: classifier predicts {} "
                                     "monotonic trend.".format(trend))
                 else:
+                    if m_trend in ("peak_heuristic", "valley_heuristic"):
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, m_trend)
+
                     monotonic.append(m_trend)
         elif self.monotonic_trend is None:
             monotonic = [None] * self._n_classes
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 3fa28c9..5d429a1 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,12 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -96,11 +102,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index adef7b0..55eb8b3 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,12 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -99,11 +105,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From 2dfbe87117241f58423a3a8eb7fc57f627569908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 021/110] fix: peak and valley constraints for targets of mixed
 sign

The difference of two means can be twice the largest absolute mean.
---
 optbinning/binning/continuous_cp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..b271dde 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -176,7 +176,7 @@ class ContinuousBinningCP(BinningCP):
                         ).OnlyEnforceIf([x[k, k], x[j, j], x[i, i]])
 
     def add_constraint_monotonic_peak(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
@@ -196,7 +196,7 @@ class ContinuousBinningCP(BinningCP):
                     U[z][z] * x[z, z] >= 0).OnlyEnforceIf([x[z, z], x[i, i]])
 
     def add_constraint_monotonic_valley(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
-- 
2.43.0


From 83dcbd48eff622e3666ea0c213bc28a9cbec0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 022/110] fix: apply gamma in continuous binning

pmin and pmax were unconstrained, therefore gamma had no effect.
---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index b271dde..a2f9577 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From ea4e922346eed3e044f77d4b2e71ed0f2bbf5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 023/110] fix: report fixed splits that contradict the trend as
 INFEASIBLE

Restores the event rate cuts for user_splits_fixed, as the tests expect.
---
 optbinning/binning/cp.py  | 3 +--
 optbinning/binning/mip.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 4b7e2a1..6faa9e2 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -405,8 +405,7 @@ class BinningCP:
                 self.max_bin_n_event is None and
                 self.min_bin_n_nonevent is None and
                 self.max_bin_n_nonevent is None and
-                self.max_pvalue is None and not self.gamma and
-                self.user_splits_fixed is None)
+                self.max_pvalue is None and not self.gamma)
 
     def add_constraint_monotonic_ascending(self, model, n, D, x, M):
         for i in range(1, n):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 63ddb28..a46314f 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -290,8 +290,7 @@ class BinningMIP:
                 self.max_bin_n_event is None and
                 self.min_bin_n_nonevent is None and
                 self.max_bin_n_nonevent is None and
-                self.max_pvalue is None and not self.gamma and
-                self.user_splits_fixed is None)
+                self.max_pvalue is None and not self.gamma)
 
     def add_constraint_monotonic_ascending(self, solver, n, D, x):
         for i in range(1, n):
-- 
2.43.0


From 22659866d581227291888c2659c6e5e14926a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 024/110] fix: event rate of bins with events only is 1, not 0

---
 optbinning/binning/binning_statistics.py                     | 3 ++-
 optbinning/binning/multidimensional/binning_statistics_2d.py | 3 ++-
 optbinning/binning/multidimensional/transformations_2d.py    | 3 ++-
 optbinning/binning/piecewise/binning_statistics.py           | 2 +-
 optbinning/binning/piecewise/transformations.py              | 2 +-
 optbinning/binning/transformations.py                        | 3 ++-
 6 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..377ec31 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -532,7 +532,8 @@ class BinningTable:
         js = np.zeros(len(n_records))
 
         # Compute weight of evidence and event rate
-        event_rate[mask] = n_event[mask] / n_records[mask]
+        nonempty = n_records > 0
+        event_rate[nonempty] = n_event[nonempty] / n_records[nonempty]
         constant = np.log(t_n_event / t_n_nonevent)
         woe[mask] = np.log(1 / event_rate[mask] - 1) + constant
 
diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 5225575..2c93723 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -246,7 +246,8 @@ class BinningTable2D(BinningTable):
         js = np.zeros(len(n_records))
 
         # Compute weight of evidence and event rate
-        event_rate[mask] = n_event[mask] / n_records[mask]
+        nonempty = n_records > 0
+        event_rate[nonempty] = n_event[nonempty] / n_records[nonempty]
         constant = np.log(t_n_event / t_n_nonevent)
         woe[mask] = np.log(1 / event_rate[mask] - 1) + constant
         W = np.log(1 / self.D - 1) + constant
diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index c3ff7c4..e0e4b51 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -160,7 +160,8 @@ def transform_binary_target(dtype_x, dtype_y, splits_x, splits_y, x, y,
         mask = (n_event > 0) & (n_nonevent > 0)
         event_rate = np.zeros(len(n_records))
         woe = np.zeros(len(n_records))
-        event_rate[mask] = n_event[mask] / n_records[mask]
+        nonempty = n_records > 0
+        event_rate[nonempty] = n_event[nonempty] / n_records[nonempty]
         constant = np.log(t_n_event / t_n_nonevent)
         woe[mask] = np.log(1 / event_rate[mask] - 1) + constant
 
diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 3092256..c5b529c 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -121,7 +121,7 @@ class PWBinningTable(BinningTable):
         t_n_records = self._t_n_nonevent + self._t_n_event
         p_records = n_records / t_n_records
 
-        mask = (n_event > 0) & (n_nonevent > 0)
+        mask = n_records > 0
         event_rate = np.zeros(len(n_records))
         event_rate[mask] = n_event[mask] / n_records[mask]
 
diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 2000fae..f1a9fee 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -99,7 +99,7 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
         event_rate_special = np.zeros(n_special)
         n_records_special = n_event_special + n_nonevent_special
 
-        mask = (n_event_special > 0) & (n_nonevent_special > 0)
+        mask = n_records_special > 0
 
         if n_special > 1:
             event_rate_special[mask] = (
diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index fc4c36c..e773945 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -283,7 +283,8 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         event_rate = np.zeros(len(n_records))
         woe = np.zeros(len(n_records))
 
-        event_rate[mask] = n_event[mask] / n_records[mask]
+        nonempty = n_records > 0
+        event_rate[nonempty] = n_event[nonempty] / n_records[nonempty]
         woe[mask] = transform_event_rate_to_woe(
             event_rate[mask], t_n_nonevent, t_n_event)
 
-- 
2.43.0


From ba469489d1bf3f1c28171690729a587cf3e648fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 025/110] fix: monotonic trend of the analysis ignores special
 and others bins

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 377ec31..627ad30 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -973,7 +973,7 @@ class BinningTable:
                                                     self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._event_rate[:-2])
+        type_mono = type_of_monotonic_trend(self._event_rate[:n_metric])
 
         report = (
             "---------------------------------------------\n"
@@ -1458,7 +1458,7 @@ class MulticlassBinningTable:
         monotonic_string = ""
 
         for i in range(len(self.classes)):
-            type_mono = type_of_monotonic_trend(self._event_rate[:-2, i])
+            type_mono = type_of_monotonic_trend(self._event_rate[:n_metric, i])
             monotonic_string += mono_string.format(i, type_mono)
 
         report = (
@@ -2022,7 +2022,7 @@ class ContinuousBinningTable:
             rwoe, p_values, self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._mean[:-2])
+        type_mono = type_of_monotonic_trend(self._mean[:n_metric])
 
         report = (
             "-------------------------------------------------\n"
-- 
2.43.0


From 49775d44aef4778b804b6520f6fd194c84056f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 026/110] fix: significance tests of bins without observations
 of a class

---
 optbinning/binning/metrics.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e0220ce..c075d38 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -268,10 +268,22 @@ def test_proportions(e1, ne1, e2, ne2):
     return statistic, 2 * pvalue
 
 
+def _chi2_test(obs):
+    # Rows and columns without observations carry no information.
+    obs = obs[obs.sum(axis=1) > 0, :]
+    obs = obs[:, obs.sum(axis=0) > 0]
+
+    if min(obs.shape) < 2:
+        return 0.0, 1.0
+
+    t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+
+    return t, p
+
+
 def frequentist_pvalue(obs, pvalue_method):
     if pvalue_method == "chi2":
-        t, p, _, _ = stats.chi2_contingency(obs, correction=False)
-        return t, p
+        return _chi2_test(obs)
     else:
         oddratio, p = stats.fisher_exact(obs)
         return oddratio, p
@@ -279,7 +291,7 @@ def frequentist_pvalue(obs, pvalue_method):
 
 def chi2_cramer_v(n_nev, n_ev):
     obs = np.array([n_nev, n_ev])
-    t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+    t, p = _chi2_test(obs)
     cramer_v = (t / (n_nev.sum() + n_ev.sum())) ** 0.5
 
     return t, cramer_v
@@ -287,7 +299,7 @@ def chi2_cramer_v(n_nev, n_ev):
 
 def chi2_cramer_v_multi(n_ev):
     r, k = n_ev.shape
-    t, p, _, _ = stats.chi2_contingency(n_ev, correction=False)
+    t, p = _chi2_test(n_ev)
     cramer_v = (t / n_ev.sum() / min(k - 1, r - 1)) ** 0.5
 
     return t, cramer_v
-- 
2.43.0


From 0e9cbc122ac8b13fafed4a598489f22e2e28efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 027/110] fix: binning table of a variable whose bins are all
 pure

---
 optbinning/binning/metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index c075d38..3451b6e 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -14,8 +14,10 @@ from sklearn.utils import check_consistent_length
 
 
 def _check_x_y(x, y):
-    x = check_array(x, ensure_2d=False, force_all_finite=True)
-    y = check_array(y, ensure_2d=False, force_all_finite=True)
+    x = check_array(x, ensure_2d=False, force_all_finite=True,
+                    ensure_min_samples=0)
+    y = check_array(y, ensure_2d=False, force_all_finite=True,
+                    ensure_min_samples=0)
 
     check_consistent_length(x, y)
 
-- 
2.43.0


From 71e0e27f7521c9821e84458c402c86abaa723cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 028/110] fix: hellinger and triangular with a single class
 outside special and missing bins

---
 optbinning/binning/binning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 2665599..b0cb19f 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1103,7 +1103,8 @@ class OptimalBinning(BaseOptimalBinning):
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if n_bins > 1 and np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+            if (self.divergence in ("hellinger", "triangular") and
+                    n_nonevent.any() and n_event.any()):
                 self._flag_min_n_event_nonevent = True
                 # Pure prebins are kept, but empty prebins must be removed.
                 mask_remove = (n_nonevent + n_event == 0)
-- 
2.43.0


From 8d470d116fa5f0275641c17cb169dcc2caa539b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 029/110] fix: continuous target with special codes given as a
 dict and an empty group

---
 optbinning/binning/binning_statistics.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 627ad30..6debf8b 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -170,15 +170,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         n_records_special = []
         sum_special = []
         n_zeros_special = []
-
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
@@ -197,9 +191,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
                 min_target_special.append(np.min(ymask))
                 max_target_special.append(np.max(ymask))
             else:
-                std_special.append(0)
-                min_target_special.append(0)
-                max_target_special.append(0)
+                std_special.append(None)
+                min_target_special.append(None)
+                max_target_special.append(None)
     else:
         if len(sw):
             sw_y = sw * y
-- 
2.43.0


From 6f32f75e674875d4ce1f05730e7d83932b60db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 030/110] fix: refit of a continuous binning kept the missing
 statistics of the previous fit

---
 optbinning/binning/continuous_binning.py           | 4 ++++
 optbinning/binning/piecewise/continuous_binning.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 5e2b255..71ce6ae 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -872,6 +872,10 @@ class ContinuousOptimalBinning(OptimalBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         if len(y_others):
             if len(sw_others):
diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index 52b6406..f9d8f6b 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -362,6 +362,10 @@ class ContinuousOptimalPWBinning(BasePWBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         bt = self._optb.binning_table.build(add_totals=False)
         n_records = bt["Count"].values[:-2]
-- 
2.43.0


From 369f63e993cdd401ab3d99715c4f7026e25db508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 031/110] fix: an integer cat_unknown truncated the transformed
 values to integers

---
 optbinning/binning/transformations.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index e773945..b960b06 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -179,11 +179,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
                      n_special, cat_unknown):
 
     if dtype == "numerical":
-        if metric == "bins":
-            x_clean_transform = np.full(x_clean.shape, cat_unknown,
-                                        dtype=object)
-        else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+        x_clean_transform = np.empty(x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -303,7 +299,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -441,7 +437,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         if cat_unknown is None:
             cat_unknown = mean_target
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From f72f4ebb508b66b89a25c9dd395572c4370cc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 032/110] fix: refit of MDLP kept the splits of the previous
 fit

---
 optbinning/binning/mdlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 835ec7b..1611d9f 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -106,6 +106,7 @@ class MDLP(BaseEstimator):
         x = x[idx]
         y = y[idx]
 
+        self._splits = []
         self._recurse(x, y, 0)
 
         self._is_fitted = True
-- 
2.43.0


From d3a45a2a2774c2de5d14d772925288403aa8b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 033/110] fix: MDLP candidate splits in variables with repeated
 values

---
 optbinning/binning/mdlp.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 1611d9f..83c3d7f 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -122,7 +122,7 @@ class MDLP(BaseEstimator):
 
         if split is not None:
             self._splits.append(split)
-            t = np.searchsorted(x, split, side="right")
+            t = np.searchsorted(x, split, side="left")
 
             if not self._terminate(n_x, n_y, y, y[:t], y[t:]):
                 self._recurse(x[:t], y[:t], id + 1)
@@ -130,7 +130,14 @@ class MDLP(BaseEstimator):
 
     def _find_split(self, u_x, x, y):
         n_x = len(x)
-        u_x = np.unique(0.5 * (x[1:] + x[:-1])[(y[1:] - y[:-1]) != 0])
+
+        # Boundary points: midpoints of consecutive distinct values, unless
+        # all the samples of both values belong to the same class.
+        first = np.searchsorted(x, u_x, side="left")
+        y_mean = np.add.reduceat(y, first) / np.diff(np.append(first, n_x))
+        mixed = (y_mean > 0) & (y_mean < 1)
+        boundary = (y_mean[1:] != y_mean[:-1]) | mixed[1:]
+        u_x = (0.5 * (u_x[1:] + u_x[:-1]))[boundary]
 
         if len(u_x) > self.max_candidates:
             percentiles = np.linspace(1, 100, self.max_candidates)
@@ -141,7 +148,7 @@ class MDLP(BaseEstimator):
         max_entropy_gain = 0
         best_split = None
 
-        tt = np.searchsorted(x, splits, side="right")
+        tt = np.searchsorted(x, splits, side="left")
         for i, t in enumerate(tt):
             samples_l = t >= self.min_samples_leaf
             samples_r = n_x - t >= self.min_samples_leaf
-- 
2.43.0


From 371f0039a9fad2a2756db5c8ce9ff15a1556a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 034/110] fix: weighted standard deviation, minimum, maximum
 and zeros of a continuous target

---
 optbinning/binning/binning_statistics.py | 33 +++++++++++--------
 optbinning/binning/continuous_binning.py | 42 ++++++++++--------------
 2 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 6debf8b..32e36be 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -165,6 +165,14 @@ def target_info_special_multiclass(special_codes, x, y, classes):
     return n_event
 
 
+def weighted_std(y, sw):
+    if not np.sum(sw):
+        return 0.0
+
+    return np.sqrt(np.average((y - np.average(y, weights=sw)) ** 2,
+                              weights=sw))
+
+
 def target_info_special_continuous(special_codes, x, y, sw):
     if isinstance(special_codes, dict):
         n_records_special = []
@@ -182,12 +190,12 @@ def target_info_special_continuous(special_codes, x, y, sw):
             n_records = np.sum(sw[mask])
             n_records_special.append(n_records)
 
-            ymask = sw[mask] * y[mask]
-            sum_special.append(np.sum(ymask))
-            n_zeros_special.append(np.count_nonzero(ymask == 0))
+            ymask = y[mask]
+            sum_special.append(np.sum(sw[mask] * ymask))
+            n_zeros_special.append(np.sum(sw[mask][ymask == 0]))
 
             if n_records:
-                std_special.append(np.std(ymask))
+                std_special.append(weighted_std(ymask, sw[mask]))
                 min_target_special.append(np.min(ymask))
                 max_target_special.append(np.max(ymask))
             else:
@@ -195,19 +203,16 @@ def target_info_special_continuous(special_codes, x, y, sw):
                 min_target_special.append(None)
                 max_target_special.append(None)
     else:
-        if len(sw):
-            sw_y = sw * y
-        else:
-            sw_y = y
-
         n_records_special = np.sum(sw)
-        sum_special = np.sum(sw_y)
-        n_zeros_special = np.count_nonzero(sw_y == 0)
         if len(y):
-            std_special = np.std(sw_y)
-            min_target_special = np.min(sw_y)
-            max_target_special = np.max(sw_y)
+            sum_special = np.sum(sw * y)
+            n_zeros_special = np.sum(sw[y == 0])
+            std_special = weighted_std(y, sw)
+            min_target_special = np.min(y)
+            max_target_special = np.max(y)
         else:
+            sum_special = 0
+            n_zeros_special = 0
             std_special = None
             min_target_special = None
             max_target_special = None
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 71ce6ae..12ac365 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -21,6 +21,7 @@ from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
 from .binning_statistics import target_info_special_continuous
+from .binning_statistics import weighted_std
 from .continuous_cp import ContinuousBinningCP
 from .preprocessing import preprocessing_user_splits_categorical
 from .preprocessing import split_data
@@ -691,13 +692,12 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if not len(splits):
             n_records = np.sum(sw_clean)
-            sw_y_clean = sw_clean * y_clean
-            sums = np.sum(sw_y_clean)
-            ssums = np.sum(sw_y_clean ** 2)
-            n_zeros = np.count_nonzero(sw_y_clean == 0)
-            stds = np.std(sw_y_clean)
-            min_t = np.min(sw_y_clean)
-            max_t = np.max(sw_y_clean)
+            sums = np.sum(sw_clean * y_clean)
+            ssums = np.sum(sw_clean * y_clean ** 2)
+            n_zeros = np.sum(sw_clean[y_clean == 0])
+            stds = weighted_std(y_clean, sw_clean)
+            min_t = np.min(y_clean)
+            max_t = np.max(y_clean)
 
         [self._n_records, self._sums, self._stds, self._min_target,
          self._max_target, self._n_zeros] = continuous_bin_info(
@@ -862,14 +862,11 @@ class ContinuousOptimalBinning(OptimalBinning):
          self._max_target_special] = target_info_special_continuous(
             self.special_codes, x_special, y_special, sw_special)
 
-        if len(sw_missing):
-            y_missing = y_missing * sw_missing
-
         self._n_records_missing = np.sum(sw_missing)
-        self._sum_missing = np.sum(y_missing)
-        self._n_zeros_missing = np.count_nonzero(y_missing == 0)
+        self._sum_missing = np.sum(sw_missing * y_missing)
+        self._n_zeros_missing = np.sum(sw_missing[y_missing == 0])
         if len(y_missing):
-            self._std_missing = np.std(y_missing)
+            self._std_missing = weighted_std(y_missing, sw_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
         else:
@@ -878,15 +875,12 @@ class ContinuousOptimalBinning(OptimalBinning):
             self._max_target_missing = None
 
         if len(y_others):
-            if len(sw_others):
-                y_others = y_others * sw_others
-
             self._n_records_cat_others = np.sum(sw_others)
-            self._sum_cat_others = np.sum(y_others)
-            self._std_cat_others = np.std(y_others)
+            self._sum_cat_others = np.sum(sw_others * y_others)
+            self._std_cat_others = weighted_std(y_others, sw_others)
             self._min_target_others = np.min(y_others)
             self._max_target_others = np.max(y_others)
-            self._n_zeros_others = np.count_nonzero(y_others == 0)
+            self._n_zeros_others = np.sum(sw_others[y_others == 0])
 
         n_splits = len(splits_prebinning)
 
@@ -930,12 +924,12 @@ class ContinuousOptimalBinning(OptimalBinning):
         for i in range(n_bins):
             mask = (indices == i)
             n_records[i] = np.sum(sw[mask])
-            ymask = sw[mask] * y[mask]
-            sums[i] = np.sum(ymask)
-            ssums[i] = np.sum(ymask ** 2)
-            n_zeros[i] = np.count_nonzero(ymask == 0)
+            ymask = y[mask]
+            sums[i] = np.sum(sw[mask] * ymask)
+            ssums[i] = np.sum(sw[mask] * ymask ** 2)
+            n_zeros[i] = np.sum(sw[mask][ymask == 0])
             if len(ymask):
-                stds[i] = np.std(ymask)
+                stds[i] = weighted_std(ymask, sw[mask])
                 min_t[i] = np.min(ymask)
                 max_t[i] = np.max(ymask)
 
-- 
2.43.0


From c44172f6c07340369a0836eabd8aa76cabc6143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 035/110] fix: order categories by the weighted target mean
 when sample weights are given

---
 optbinning/binning/preprocessing.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index e5c0f11..aebc122 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -21,8 +21,12 @@ from .outlier import RangeDetector
 from .outlier import YQuantileDetector
 
 
-def categorical_transform(x, y):
-    event_rate = pd.Series(y).groupby(x).mean()
+def categorical_transform(x, y, sample_weight=None):
+    if sample_weight is None:
+        event_rate = pd.Series(y).groupby(x).mean()
+    else:
+        event_rate = (pd.Series(sample_weight * y).groupby(x).sum() /
+                      pd.Series(sample_weight).groupby(x).sum())
     sorted_categories = event_rate.sort_values().index.values
     d = dict(map(reversed, enumerate(sorted_categories)))
 
@@ -275,7 +279,8 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             others = []
             sw_others = []
 
-        categories, x_clean = categorical_transform(x_clean, y_clean)
+        categories, x_clean = categorical_transform(
+            x_clean, y_clean, sw_clean)
 
         return (x_clean, y_clean, x_missing, y_missing, x_special, y_special,
                 y_others, categories, others, sw_clean, sw_missing, sw_special,
@@ -358,7 +363,11 @@ def preprocessing_user_splits_categorical(user_splits, x, y,
     event_rate = np.zeros(n_user_splits)
     x_p = pd.Series(x_clean)
     for i, split in enumerate(user_splits):
-        event_rate[i] = y_clean[x_p.isin(split)].mean()
+        mask = x_p.isin(split)
+        if sample_weight is None or not sw_clean[mask].any():
+            event_rate[i] = y_clean[mask].mean()
+        else:
+            event_rate[i] = np.average(y_clean[mask], weights=sw_clean[mask])
 
     splits_nominal = np.array(range(n_user_splits))
     sorted_idx = np.argsort(event_rate)
-- 
2.43.0


From d60486c230084320e3a8b837af1f59132e95ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 036/110] fix: standard deviation NaN when rounding makes the
 variance negative

---
 optbinning/binning/binning_statistics.py                  | 2 +-
 optbinning/binning/model_data.py                          | 3 ++-
 optbinning/binning/multidimensional/model_data_2d.py      | 2 +-
 optbinning/binning/multidimensional/model_data_cart_2d.py | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 32e36be..061ece1 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -285,7 +285,7 @@ def multiclass_bin_info(solution, n_classes, n_event, n_event_missing,
 
 
 def nstd(s, ss, records):
-    return np.sqrt(ss / records - (s / records) ** 2)
+    return np.sqrt(max(ss / records - (s / records) ** 2, 0))
 
 
 def continuous_bin_info(solution, n_records, sums, ssums, stds, min_target,
diff --git a/optbinning/binning/model_data.py b/optbinning/binning/model_data.py
index e58bf17..7617ea4 100644
--- a/optbinning/binning/model_data.py
+++ b/optbinning/binning/model_data.py
@@ -261,7 +261,8 @@ def continuous_model_data(n_records, sums, ssums, max_pvalue,
         s_ssums = ssums[:i][::-1].cumsum()[::-1]
 
         mean = s_sums / s_n_records
-        std = np.sqrt(s_ssums / s_n_records - mean ** 2)
+        std = np.sqrt(
+            np.maximum(s_ssums / s_n_records - mean ** 2, 0))
         norm = np.absolute(mean - t_mean)
 
         if scale is not None:
diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index 90f1e90..d062aab 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -253,7 +253,7 @@ def continuous_model_data(R, S, SS, monotonicity_x, monotonicity_y, scale,
     # Mean and norm
     t_mean = S.sum() / R.sum()
     mean = sums / n_records
-    stds = np.sqrt(ssums / n_records - mean ** 2)
+    stds = np.sqrt(np.maximum(ssums / n_records - mean ** 2, 0))
     norm = np.absolute(mean - t_mean)
 
     if scale is not None:
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 4e9b471..51f0106 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -329,7 +329,7 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
     # Mean and norm
     t_mean = S.sum() / R.sum()
     mean = sums / n_records
-    stds = np.sqrt(ssums / n_records - mean ** 2)
+    stds = np.sqrt(np.maximum(ssums / n_records - mean ** 2, 0))
     norm = np.absolute(mean - t_mean)
 
     if scale is not None:
-- 
2.43.0


From 16f7e51a7ae128febb0634a42c6e51fef4e642b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 037/110] fix: cart strategy of 2D binning with few prebins and
 random tie breaking

---
 optbinning/binning/multidimensional/binning_2d.py            | 5 +++--
 optbinning/binning/multidimensional/continuous_binning_2d.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..fbd5094 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -636,7 +636,7 @@ class OptimalBinning2D(OptimalBinning):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(n_splits_x * n_splits_y, 2)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
@@ -659,7 +659,8 @@ class OptimalBinning2D(OptimalBinning):
                                   self.min_prebin_size_y) * 0.25
 
             clf = DecisionTreeClassifier(min_samples_leaf=min_prebin_size,
-                                         max_leaf_nodes=clf_nodes)
+                                         max_leaf_nodes=clf_nodes,
+                                         random_state=0)
             clf.fit(xyt, z_clean)
 
             self._clf = clf
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..10f24da 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -561,7 +561,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(n_splits_x * n_splits_y, 2)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
@@ -584,7 +584,8 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
                                   self.min_prebin_size_y) * 0.25
 
             clf = DecisionTreeRegressor(min_samples_leaf=min_prebin_size,
-                                        max_leaf_nodes=clf_nodes)
+                                        max_leaf_nodes=clf_nodes,
+                                        random_state=0)
             clf.fit(xyt, z_clean)
 
             self._clf = clf
-- 
2.43.0


From 24ee62510b13317779e52ffe3266f728854e70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 038/110] fix: monotonic constraints of 2D binning with the
 cart strategy

---
 .../binning/multidimensional/model_data_cart_2d.py   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 51f0106..bdb73b1 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -175,11 +175,13 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = G[np.ix_(M.any(axis=1),
+                                                   M.any(axis=0))]
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = G[np.ix_(M.any(axis=1),
+                                                   M.any(axis=0))]
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
@@ -293,11 +295,13 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = G[np.ix_(M.any(axis=1),
+                                                   M.any(axis=0))]
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = G[np.ix_(M.any(axis=1),
+                                                   M.any(axis=0))]
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
-- 
2.43.0


From e079d8055d59d8ed4140fdffc6e4c9130192a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 039/110] fix: 2D binning without a feasible solution lost its
 rows

---
 optbinning/binning/multidimensional/binning_2d.py   | 11 +++++++++--
 .../multidimensional/continuous_binning_2d.py       | 13 +++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index fbd5094..04e2998 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -698,12 +698,12 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [rows[i] for i in np.flatnonzero(self._solution)]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_n_nonevent = np.empty(n_selected_rows, dtype=int)
         opt_n_event = np.empty(n_selected_rows, dtype=int)
@@ -903,6 +903,13 @@ class OptimalBinning2D(OptimalBinning):
 
         status, solution = optimizer.solve()
 
+        if not solution.any():
+            # No solution: a single bin with all the records.
+            solution = np.ones(1, dtype=bool)
+            rows = [list(range(n_grid))]
+            n_event = np.array([E.sum()])
+            n_nonevent = np.array([NE.sum()])
+
         self._solution = solution
 
         self._optimizer, self._time_optimizer = solver_statistics(
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 10f24da..935b564 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -623,12 +623,12 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [rows[i] for i in np.flatnonzero(self._solution)]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_sums = np.empty(n_selected_rows, dtype=float)
         opt_n_records = np.empty(n_selected_rows, dtype=int)
@@ -823,6 +823,15 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
 
         status, solution = optimizer.solve()
 
+        if not solution.any():
+            # No solution: a single bin with all the records.
+            solution = np.ones(1, dtype=bool)
+            rows = [list(range(n_grid))]
+            n_records = np.array([R.sum()])
+            sums = np.array([S.sum()])
+            stds = np.sqrt(np.maximum(
+                SS.sum() / n_records - (sums / n_records) ** 2, 0))
+
         self._solution = solution
 
         self._optimizer, self._time_optimizer = solver_statistics(
-- 
2.43.0


From 1008b81e0e8d48b612ddc6a0467009ebd3b0696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 040/110] fix: piecewise WoE of special and missing groups
 without events or non-events

---
 optbinning/binning/piecewise/transformations.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index f1a9fee..9c5abdb 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -58,6 +58,18 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
     return x_transform
 
 
+def _empirical_woe(event_rate, n_nonevent, n_event):
+    # The WoE of a group without events or non-events is 0.
+    event_rate = np.asarray(event_rate, dtype=float)
+    woe = np.zeros(event_rate.shape)
+
+    mask = (event_rate > 0) & (event_rate < 1)
+    woe[mask] = transform_event_rate_to_woe(
+        event_rate[mask], n_nonevent, n_event)
+
+    return woe
+
+
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
                             n_nonevent_special, n_event_special,
                             n_nonevent_missing, n_event_missing,
@@ -108,7 +120,7 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_special = n_event_special / n_records_special
 
         if metric == "woe":
-            event_rate_special = transform_event_rate_to_woe(
+            event_rate_special = _empirical_woe(
                 event_rate_special, n_nonevent, n_event)
 
     if metric_missing == "empirical":
@@ -120,7 +132,7 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_missing = 0
 
         if metric == "woe":
-            event_rate_missing = transform_event_rate_to_woe(
+            event_rate_missing = _empirical_woe(
                 event_rate_missing, n_nonevent, n_event)
 
     x_transform = _apply_transform(
-- 
2.43.0


From 9577aef5a6cca5cfea25e0cb67735f7ea61201fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 041/110] fix: 2D transform of unknown categories and array
 special codes

---
 optbinning/binning/multidimensional/transformations_2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index e0e4b51..66f071c 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -62,6 +62,8 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     if metric == "bins":
         z_clean_transform = np.full(x_clean.shape, "", dtype=object)
+    elif metric == "indices":
+        z_clean_transform = np.full(x_clean.shape, -1, dtype=int)
     else:
         z_clean_transform = np.zeros(x_clean.shape)
 
@@ -87,7 +89,7 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     z_transform[clean_mask] = z_clean_transform
 
-    if special_codes_x or special_codes_y:
+    if special_codes_x is not None or special_codes_y is not None:
         if (metric_special == "empirical" or
             (metric == "indices" and not isinstance(metric_special, int)) or
                 metric == "bins"):
-- 
2.43.0


From fe003475ca7cab4e6bd3ac3cf9e4faf07beb3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 042/110] fix: refinement counters accumulated over refits

---
 optbinning/binning/binning.py            | 3 +++
 optbinning/binning/continuous_binning.py | 2 ++
 optbinning/binning/multiclass_binning.py | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index b0cb19f..44e60cf 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -700,6 +700,9 @@ class OptimalBinning(BaseOptimalBinning):
     def _fit(self, x, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
+        self._n_refinements = 0
+        self._flag_min_n_event_nonevent = False
+
         if self.verbose:
             logger.info("Optimal binning started.")
             logger.info("Options: check parameters.")
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 12ac365..3c46f39 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -549,6 +549,8 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _fit(self, x, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
+        self._n_refinements = 0
+
         if self.verbose:
             logger.info("Optimal binning started.")
             logger.info("Options: check parameters.")
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 28f32cb..23be05a 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -493,6 +493,8 @@ class MulticlassOptimalBinning(OptimalBinning):
     def _fit(self, x, y, check_input):
         time_init = time.perf_counter()
 
+        self._n_refinements = 0
+
         if self.verbose:
             logger.info("Optimal binning started.")
             logger.info("Options: check parameters.")
-- 
2.43.0


From cee07038eeff8354b12eb461685aee5068f896da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 043/110] fix: transform failed with special codes given as an
 array

---
 optbinning/binning/piecewise/transformations.py | 2 +-
 optbinning/binning/transformations.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9c5abdb..1940aa9 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -34,7 +34,7 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
     x_transform[clean_mask] = x_clean_transform
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index b960b06..8c7bd89 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -192,7 +192,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From ebde6560b4caaff9eebf64820ba404e652db4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 044/110] fix: JSON serialization of categories, special codes,
 user splits and numpy values

---
 optbinning/binning/base.py               | 26 ++++++++++++++++++
 optbinning/binning/binning.py            | 29 +++++++++++++++-----
 optbinning/binning/continuous_binning.py | 34 +++++++++++++++++++-----
 optbinning/binning/multiclass_binning.py | 22 ++++++++++-----
 4 files changed, 93 insertions(+), 18 deletions(-)

diff --git a/optbinning/binning/base.py b/optbinning/binning/base.py
index c658c23..2dc04ed 100644
--- a/optbinning/binning/base.py
+++ b/optbinning/binning/base.py
@@ -8,10 +8,36 @@ Base optimal binning algorithm class.
 from abc import ABCMeta
 from abc import abstractmethod
 
+import numpy as np
+
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 
 
+def json_value(value):
+    """Convert a value to the types supported by JSON."""
+    if isinstance(value, dict):
+        return {k: json_value(v) for k, v in value.items()}
+    elif isinstance(value, (list, tuple, np.ndarray)):
+        return [json_value(v) for v in value]
+    elif isinstance(value, np.generic):
+        return value.item()
+
+    return value
+
+
+def json_categories(categories):
+    """Array of categories, or groups of categories, stored in a JSON file."""
+    if categories is None:
+        return None
+
+    array = np.empty(len(categories), dtype=object)
+    for i, category in enumerate(categories):
+        array[i] = category
+
+    return array
+
+
 class Base:
     def _check_is_fitted(self):
         if not self._is_fitted:
diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 44e60cf..a7bacd9 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -19,6 +19,8 @@ from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import BaseOptimalBinning
+from .base import json_categories
+from .base import json_value
 from .binning_information import print_binning_information
 from .binning_statistics import bin_categorical
 from .binning_statistics import bin_info
@@ -1228,8 +1230,10 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['cat_others'] = table.cat_others
         opt_bin_dict['user_splits'] = table.user_splits
 
+        json_str = json.dumps(json_value(opt_bin_dict))
+
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            write_file.write(json_str)
 
     def read_json(self, path):
         """
@@ -1240,13 +1244,26 @@ class OptimalBinning(BaseOptimalBinning):
         ----------
         path: The path of the json file.
         """
-        self._is_fitted = True
-
         with open(path, "r") as read_file:
             bin_table_attr = json.load(read_file)
 
-        for key in bin_table_attr.keys():
-            if isinstance(bin_table_attr[key], list):
-                bin_table_attr[key] = np.array(bin_table_attr[key])
+        for key in ("splits", "n_nonevent", "n_event"):
+            bin_table_attr[key] = np.array(bin_table_attr[key])
+
+        for key in ("categories", "cat_others"):
+            bin_table_attr[key] = json_categories(bin_table_attr[key])
 
         self._binning_table = BinningTable(**bin_table_attr)
+
+        self.name = self._binning_table.name
+        self.dtype = self._binning_table.dtype
+        self.special_codes = self._binning_table.special_codes
+        self.user_splits = self._binning_table.user_splits
+
+        self._splits_optimal = self._binning_table.splits
+        self._n_nonevent = self._binning_table.n_nonevent
+        self._n_event = self._binning_table.n_event
+        self._categories = self._binning_table.categories
+        self._cat_others = self._binning_table.cat_others
+
+        self._is_fitted = True
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 3c46f39..2724a96 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -17,6 +17,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import json_categories
+from .base import json_value
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
@@ -1028,8 +1030,10 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['cat_others'] = table.cat_others
         opt_bin_dict['user_splits'] = table.user_splits
 
+        json_str = json.dumps(json_value(opt_bin_dict))
+
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            write_file.write(json_str)
 
     def read_json(self, path):
         """
@@ -1043,13 +1047,31 @@ class ContinuousOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
-
         with open(path, "r") as read_file:
             cont_table_attr = json.load(read_file)
 
-        for key in cont_table_attr.keys():
-            if isinstance(cont_table_attr[key], list):
-                cont_table_attr[key] = np.array(cont_table_attr[key])
+        for key in ("splits", "n_records", "sums", "stds", "min_target",
+                    "max_target", "n_zeros"):
+            cont_table_attr[key] = np.array(cont_table_attr[key])
+
+        for key in ("categories", "cat_others"):
+            cont_table_attr[key] = json_categories(cont_table_attr[key])
 
         self._binning_table = ContinuousBinningTable(**cont_table_attr)
+
+        self.name = self._binning_table.name
+        self.dtype = self._binning_table.dtype
+        self.special_codes = self._binning_table.special_codes
+        self.user_splits = self._binning_table.user_splits
+
+        self._splits_optimal = self._binning_table.splits
+        self._n_records = self._binning_table.n_records
+        self._sums = self._binning_table.sums
+        self._stds = self._binning_table.stds
+        self._min_target = self._binning_table.min_target
+        self._max_target = self._binning_table.max_target
+        self._n_zeros = self._binning_table.n_zeros
+        self._categories = self._binning_table.categories
+        self._cat_others = self._binning_table.cat_others
+
+        self._is_fitted = True
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 23be05a..0da1d62 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -17,6 +17,7 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import json_value
 from .binning import OptimalBinning
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
@@ -908,8 +909,10 @@ class MulticlassOptimalBinning(OptimalBinning):
         opt_bin_dict['n_event'] = table.n_event.tolist()
         opt_bin_dict['classes'] = table.classes.tolist()
 
+        json_str = json.dumps(json_value(opt_bin_dict))
+
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            write_file.write(json_str)
 
     def read_json(self, path):
         """
@@ -923,13 +926,20 @@ class MulticlassOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
-
         with open(path, "r") as read_file:
             multi_table_attr = json.load(read_file)
 
-        for key in multi_table_attr.keys():
-            if isinstance(multi_table_attr[key], list):
-                multi_table_attr[key] = np.array(multi_table_attr[key])
+        for key in ("splits", "n_event", "classes"):
+            multi_table_attr[key] = np.array(multi_table_attr[key])
 
         self._binning_table = MulticlassBinningTable(**multi_table_attr)
+
+        self.name = self._binning_table.name
+        self.special_codes = self._binning_table.special_codes
+
+        self._splits_optimal = self._binning_table.splits
+        self._n_event = self._binning_table.n_event
+        self._classes = self._binning_table.classes
+        self._n_classes = len(self._classes)
+
+        self._is_fitted = True
-- 
2.43.0


From c0c5d0b2ce92082f61d75da24c7110cd3e581e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 045/110] fix: scenario weights were truncated and scenarios
 without splits raised an error

---
 optbinning/binning/cp.py                            | 5 ++---
 optbinning/binning/uncertainty/binning_scenarios.py | 6 ++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 6faa9e2..c5e0fd3 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -186,9 +186,8 @@ class BinningCP:
         n_records = n_nonevent + n_event
         n_scenarios = len(w)
 
-        if w is not None:
-            sw = 10 ** np.abs(np.log10(np.min(w)))
-            w = [np.int64(w[s] * sw) for s in range(n_scenarios)]
+        # Scenario weights are integers in [0, 1e4]
+        w = [int(v) for v in np.round(1e4 * np.asarray(w) / np.max(w))]
 
         # Initialize model
         model = cp_model.CpModel()
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 87d4bea..af3d0ff 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -474,6 +474,7 @@ class SBOptimalBinning(OptimalBinning):
         _check_X_Y_weights(X, Y, weights)
 
         self._n_scenarios = len(X)
+        self._n_refinements = 0
 
         if self.verbose:
             logger.info("Optimal binning started.")
@@ -570,6 +571,11 @@ class SBOptimalBinning(OptimalBinning):
 
         time_postprocessing = time.perf_counter()
 
+        if not len(splits):
+            t_info = np.array([target_info(y) for y in y_clean])
+            n_nonevent = t_info[:, 0].reshape(1, -1)
+            n_event = t_info[:, 1].reshape(1, -1)
+
         self._n_nonevent = 0
         self._n_event = 0
         self._binning_tables = []
-- 
2.43.0


From c59909f561266b3d91ba403bcca45295d72424ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 046/110] fix: continuous 2D binning with gamma and the CP
 solver raised TypeError

---
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 935b564..b450628 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -720,7 +720,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         indices_y = np.digitize(y_clean, splits_y, right=False)
         n_bins_y = n_splits_y + 1
 
-        R = np.empty((n_bins_y, n_bins_x), dtype=float)
+        R = np.empty((n_bins_y, n_bins_x), dtype=int)
         S = np.empty((n_bins_y, n_bins_x), dtype=float)
         SS = np.empty((n_bins_y, n_bins_x), dtype=float)
 
-- 
2.43.0


From 1ba7b6ed65038595bf7a4d5bf4af0576dd209470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 047/110] fix: 2D cart strategy failed when the decision tree
 has no splits

---
 optbinning/binning/multidimensional/model_data_cart_2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index bdb73b1..0fb4de8 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -35,6 +35,10 @@ def get_rectangles(tree, feature_names):
 
     features = [feature_names[i] for i in tree.tree_.feature]
 
+    # tree without splits: the root is the only leaf
+    if left[0] == -1:
+        return [[]]
+
     # get ids of child nodes
     idx = np.argwhere(left == -1)[:, 0]
 
-- 
2.43.0


From 2b50abde5ca5d9ff503bc82c6f2cbcc1cc9bb68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 048/110] fix: weights of the multivariate Jensen-Shannon
 divergence may sum 1 up to rounding

---
 optbinning/binning/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index 3451b6e..7e9e55a 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -187,7 +187,7 @@ def jensen_shannon_multivariate(X, weights=None):
         if len(weights) != n:
             raise ValueError("Shapes of X and weights differ.")
 
-        if weights.sum() != 1.0:
+        if not np.isclose(weights.sum(), 1.0):
             raise ValueError("weights must sum 1.")
     else:
         weights = np.ones(n) / n
-- 
2.43.0


From ac44d194bcd33104ac4d99c90f9da2e82b86a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 049/110] fix: KS with tied predictions depended on the order
 of the rows, metrics failed with lists and series

---
 optbinning/metrics/classification.py |  8 +++++++-
 optbinning/metrics/regression.py     | 10 ++++++++++
 optbinning/scorecard/plots.py        |  6 +++---
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index 9948ebf..9e443b4 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -46,12 +46,16 @@ def ks(y_true, y_pred_proba):
     -------
     ks : tuple(ks_score, ks_position)
     """
+    y_true = np.asarray(y_true)
+    y_pred_proba = np.asarray(y_pred_proba)
+
     n_samples = y_true.shape[0]
     n_event = np.sum(y_true)
     n_nonevent = n_samples - n_event
 
     idx = np.argsort(y_pred_proba)
     yy = y_true[idx]
+    pp = y_pred_proba[idx]
 
     cum_event = np.cumsum(yy)
     cum_population = np.arange(1, n_samples + 1)
@@ -60,7 +64,9 @@ def ks(y_true, y_pred_proba):
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
+    # Tied predictions share the same threshold
+    last = np.append(pp[1:] != pp[:-1], True)
+    p_diff = np.where(last, p_nonevent - p_event, -np.inf)
     ks_max_idx = np.argmax(p_diff)
     ks_score = p_diff[ks_max_idx]
 
diff --git a/optbinning/metrics/regression.py b/optbinning/metrics/regression.py
index 3878473..509474c 100644
--- a/optbinning/metrics/regression.py
+++ b/optbinning/metrics/regression.py
@@ -29,6 +29,8 @@ def mean_absolute_percentage_error(y_true, y_pred):
     -------
     mape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
+
     return np.abs((y_true - y_pred) / y_true).mean()
 
 
@@ -47,6 +49,8 @@ def median_absolute_percentage_error(y_true, y_pred):
     -------
     mdape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
+
     return np.median(np.abs((y_true - y_pred) / y_true))
 
 
@@ -65,6 +69,8 @@ def mean_percentage_error(y_true, y_pred):
     -------
     mpe : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
+
     return ((y_true - y_pred) / y_true).mean()
 
 
@@ -83,6 +89,8 @@ def symmetric_mean_absolute_percentage_error(y_true, y_pred):
     -------
     smape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
+
     e = np.abs(y_true - y_pred)
     return (e / (np.abs(y_true) + np.abs(y_pred))).mean()
 
@@ -102,6 +110,8 @@ def symmetric_median_absolute_percentage_error(y_true, y_pred):
     -------
     smdape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
+
     e = np.abs(y_true - y_pred)
     return np.median(e / (np.abs(y_true) + np.abs(y_pred)))
 
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index e72df9e..b6de327 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -14,6 +14,8 @@ from sklearn.metrics import roc_curve, roc_auc_score
 from sklearn.utils import check_array
 from sklearn.utils import check_consistent_length
 
+from ..metrics.classification import ks
+
 
 def _check_arrays(y, y_pred):
     y = check_array(y, ensure_2d=False, force_all_finite=True)
@@ -227,9 +229,7 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
-    ks_score = np.max(p_diff)
-    ks_max_idx = np.argmax(p_diff)
+    ks_score, ks_max_idx = ks(y, y_pred)
 
     # Define the plot settings
     if title is None:
-- 
2.43.0


From 0416eea744afeb8ac09e0fa7ce917345c8fb8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 050/110] fix: HDI range detector failed when the interval
 covers all the samples

---
 optbinning/binning/outlier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1537fb1..9bb45e9 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -108,7 +108,7 @@ class RangeDetector(BaseEstimator, OutlierDetector):
         else:
             n = len(x)
             xsorted = np.sort(x)
-            n_included = int(np.ceil(self.interval_length * n))
+            n_included = min(int(np.ceil(self.interval_length * n)), n - 1)
             n_ci = n - n_included
             ci = xsorted[n_included:] - xsorted[:n_ci]
             j = np.argmin(ci)
-- 
2.43.0


From 7a06287f81f7cbe94f826b3f194904766e9f0a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 051/110] fix: y-quantile outlier detector failed with empty
 quantile bins

---
 optbinning/binning/outlier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 9bb45e9..73c99a9 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -219,6 +219,8 @@ class YQuantileDetector(BaseEstimator, OutlierDetector):
 
         for i in range(n_bins):
             mask_x = indices == i
+            if not mask_x.any():
+                continue
             detector.fit(y[mask_x])
             mask_out = detector.get_support()
             idx_out = idx_support[mask_x][mask_out]
-- 
2.43.0


From d3cb68f704d6159662571ddaaa2296dc371d8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 052/110] fix: merged GK sketches exceeded the quantile error
 bound and could count more values than added

---
 optbinning/binning/distributed/gk.py | 47 ++++++++++++++--------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 42fe854..d6838b5 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -94,45 +94,46 @@ class GK:
             self.copy(gk)
             return
 
-        entries = []
-        spread = int(gk.eps * (gk.n - 1))
+        self.merge_compress()
         gk.merge_compress()
 
-        # upper bound elements(gk.v0, gk.v1) - spread
-        g = gk.entries[0].g + gk.entries[0].delta - 1 - spread
-
-        if g > 0:
-            entries.append(Entry(gk._min, g, 0))
+        # The rank of an entry within the other sketch is known up to the
+        # uncertainty of the next entry of the other sketch.
+        entries = []
+        i = 0
+        j = 0
+        n_self = len(self.entries)
+        n_gk = len(gk.entries)
+
+        while i < n_self or j < n_gk:
+            if j == n_gk or (i < n_self and
+                             self.entries[i].value <= gk.entries[j].value):
+                t = self.entries[i]
+                tn = gk.entries[j] if j < n_gk else None
+                i += 1
+            else:
+                t = gk.entries[j]
+                tn = self.entries[i] if i < n_self else None
+                j += 1
 
-        n_gk = len(gk)
-        for i in range(n_gk - 1):
-            tp1 = gk.entries[i + 1]
-            t = gk.entries[i]
-            g = tp1.g + (tp1.delta - t.delta)
-            if g > 0:
-                entries.append(Entry(t.value, g, 0))
+            delta = t.delta if tn is None else t.delta + tn.g + tn.delta - 1
+            entries.append(Entry(t.value, t.g, delta))
 
-        last_t = gk.entries[n_gk - 1]
-        g = spread + 1 - last_t.delta
-        if g > 0:
-            entries.append(Entry(last_t.value, g, 0))
+        self.entries = entries
 
         self._count += gk._count
         self._min = min(self._min, gk._min)
         self._max = max(self._max, gk._max)
         self._sum += gk._sum
 
-        self.merge_compress(entries)
+        self.merge_compress()
 
-    def merge_compress(self, entries=[]):
+    def merge_compress(self):
         """Compress sketch."""
         remove_threshold = float(2.0 * self.eps * (self._count - 1))
 
         incoming = [Entry(value, 1, 0) for value in self.incoming]
 
-        if len(entries):
-            incoming.extend(Entry(e.value, e.g, e.delta) for e in entries)
-
         incoming = sorted(incoming, key=lambda e: e.value)
 
         merged = []
-- 
2.43.0


From 98ec435f3908d18ee57bde95c1603126251af54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 053/110] fix: streaming bins counted values equal to a split
 point in the wrong bin

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..74e8788 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -58,7 +58,7 @@ def _indices_count(sketch_type, sketch, splits):
             values[i] = centroid.mean
             count[i] = centroid.count
 
-    indices = np.searchsorted(splits, values, side='left')
+    indices = np.searchsorted(splits, values, side='right')
     return indices, count
 
 
-- 
2.43.0


From 52c5188b434837b0cd3189f875237dcbe8eaceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 054/110] fix: merging binning sketches lost special and
 missing counts and shared state with the merged sketch

---
 optbinning/binning/distributed/bsketch.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 74e8788..a64d7dd 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -184,13 +184,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
@@ -401,7 +394,7 @@ class BCatSketch:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
-- 
2.43.0


From 0df9823538dbb046087da8f4aa2a97104106b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 055/110] fix: streaming prebinning misaligned categories,
 failed with pure or repeated prebins and counted missing twice

---
 .../binning/distributed/binning_sketch.py     | 85 +++++++++----------
 1 file changed, 41 insertions(+), 44 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..f51f722 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -611,10 +611,6 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         time_postprocessing = time.perf_counter()
 
-        if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
-
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
             self._n_event_missing, self._n_nonevent_special,
@@ -722,6 +718,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            # Quantiles of repeated values are equal.
+            splits = np.unique(splits)
+
             splits, n_nonevent, n_event = self._compute_prebins(splits)
         else:
             [splits, categories, n_nonevent, n_event, cat_others,
@@ -732,9 +731,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             self._n_nonevent_cat_others = n_nonevent_others
             self._n_event_cat_others = n_event_others
 
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(splits, categories,
-                                                  n_nonevent, n_event)
+            splits, n_nonevent, n_event = self._compute_cat_prebins(
+                splits, categories, n_nonevent, n_event)
 
         self._splits_prebinning = splits
 
@@ -744,66 +742,65 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._n_refinements = 0
 
         n_event, n_nonevent = self._bsketch.bins(splits)
-        mask_remove = (n_nonevent == 0) | (n_event == 0)
+        mask_remove = self._mask_remove_prebins(n_nonevent, n_event)
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
-                self._flag_min_n_event_nonevent = True
-            else:
-                self._n_refinements += 1
+        while len(splits) and np.any(mask_remove):
+            self._n_refinements += 1
 
-                mask_splits = np.concatenate(
-                    [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
+            mask_splits = np.concatenate(
+                [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-                splits = splits[~mask_splits]
-                splits, n_nonevent, n_event = self._compute_prebins(splits)
+            splits = splits[~mask_splits]
+            n_event, n_nonevent = self._bsketch.bins(splits)
+            mask_remove = self._mask_remove_prebins(n_nonevent, n_event)
 
         return splits, n_nonevent, n_event
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
         self._n_refinements = 0
-        mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if self.cat_heuristic and len(categories) > self.max_n_prebins:
-            n_records = n_nonevent + n_event
-            mask_size = n_records < self._bsketch.n / self.max_n_prebins
-            mask_remove |= mask_size
+        indices_cat = np.arange(len(categories))
+        cat_nonevent, cat_event = n_nonevent, n_event
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
-                self._flag_min_n_event_nonevent = True
+        while len(splits):
+            mask_remove = self._mask_remove_prebins(n_nonevent, n_event)
 
-                if self.cat_heuristic:
-                    mask_remove = mask_size
-            else:
-                self._n_refinements += 1
+            if self.cat_heuristic and len(n_event) > self.max_n_prebins:
+                n_records = n_nonevent + n_event
+                mask_remove |= n_records < self._bsketch.n / self.max_n_prebins
+
+            if not np.any(mask_remove):
+                break
+
+            self._n_refinements += 1
 
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             splits = splits[~mask_splits]
-
-            splits_int = np.ceil(splits).astype(int)
-            indices = np.digitize(np.arange(len(categories)), splits_int,
-                                  right=False)
+            indices = np.digitize(indices_cat, splits, right=False)
             n_bins = len(splits) + 1
 
-            new_nonevent = np.empty(n_bins, dtype=np.int64)
-            new_event = np.empty(n_bins, dtype=np.int64)
-            new_categories = []
+            n_nonevent = np.empty(n_bins, dtype=np.int64)
+            n_event = np.empty(n_bins, dtype=np.int64)
             for i in range(n_bins):
                 mask = (indices == i)
-                new_categories.append(categories[mask])
-                new_nonevent[i] = n_nonevent[mask].sum()
-                new_event[i] = n_event[mask].sum()
+                n_nonevent[i] = cat_nonevent[mask].sum()
+                n_event[i] = cat_event[mask].sum()
 
-            new_categories = np.array(new_categories, dtype=object)
+        return splits, n_nonevent, n_event
 
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(
-                splits, new_categories, new_nonevent, new_event)
+    def _mask_remove_prebins(self, n_nonevent, n_event):
+        mask_remove = (n_nonevent == 0) | (n_event == 0)
+
+        if (self.divergence in ("hellinger", "triangular") and
+                n_nonevent.any() and n_event.any()):
+            if np.any(mask_remove):
+                self._flag_min_n_event_nonevent = True
+            # Pure prebins are kept, but empty prebins must be removed.
+            mask_remove = (n_nonevent + n_event == 0)
 
-        return splits, categories, n_nonevent, n_event
+        return mask_remove
 
     def _fit_optimizer(self, splits, n_nonevent, n_event):
         if self.verbose:
-- 
2.43.0


From 1a056c5922c83dc5cbab605f0f8e907404b02f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 056/110] fix: OptimalBinningSketch ignored split_digits,
 failed with empty sketches and with array special codes

---
 .../binning/distributed/binning_sketch.py     | 51 ++++++++++++++++---
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index f51f722..df5526c 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -473,11 +473,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             Whether to check input arrays.
         """
         if self._bsketch is None:
-            if self.dtype == "numerical":
-                self._bsketch = BSketch(self.sketch, self.eps, self.K,
-                                        self.special_codes)
-            else:
-                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+            self._init_bsketch()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -541,7 +537,12 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self.mergeable(optbsketch):
             raise Exception("optbsketch does not share signature.")
 
-        self._bsketch.merge(optbsketch._bsketch)
+        if optbsketch._bsketch is not None:
+            if self._bsketch is None:
+                self._init_bsketch()
+
+            self._bsketch.merge(optbsketch._bsketch)
+            self._n_add += optbsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -558,7 +559,19 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         -------
         mergeable : bool
         """
-        return self.get_params() == optbsketch.get_params()
+        params = self.get_params()
+        other_params = optbsketch.get_params()
+
+        # special_codes may be a numpy.ndarray.
+        codes = params.pop("special_codes")
+        other_codes = other_params.pop("special_codes")
+
+        if codes is None or other_codes is None:
+            special_eq = codes is None and other_codes is None
+        else:
+            special_eq = np.array_equal(codes, other_codes)
+
+        return params == other_params and special_eq
 
     def plot_progress(self):
         """Plot divergence measure progress."""
@@ -695,6 +708,13 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                                        metric, metric_special, metric_missing,
                                        None, show_digits, check_input)
 
+    def _init_bsketch(self):
+        if self.dtype == "numerical":
+            self._bsketch = BSketch(self.sketch, self.eps, self.K,
+                                    self.special_codes)
+        else:
+            self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+
     def _prebinning_data(self):
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
@@ -707,7 +727,10 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if self.dtype == "numerical":
             sketch_all = self._bsketch.merge_sketches()
 
-            if self.sketch == "gk":
+            if sketch_all.n == 0:
+                # Only missing or special values were added.
+                splits = np.array([])
+            elif self.sketch == "gk":
                 percentiles = np.linspace(0, 1, self.max_n_prebins + 1)
 
                 splits = np.array([sketch_all.quantile(p)
@@ -718,6 +741,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            if self.split_digits is not None:
+                splits = np.round(splits, self.split_digits)
+
             # Quantiles of repeated values are equal.
             splits = np.unique(splits)
 
@@ -726,6 +752,15 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             [splits, categories, n_nonevent, n_event, cat_others,
              n_nonevent_others, n_event_others] = self._bsketch.bins()
 
+            if not len(categories):
+                if len(cat_others):
+                    raise ValueError("All categories moved to others' bin. "
+                                     "Al least one category is needed to "
+                                     "perform binning.")
+
+                n_nonevent = np.zeros(1, dtype=np.int64)
+                n_event = np.zeros(1, dtype=np.int64)
+
             self._categories = categories
             self._cat_others = cat_others
             self._n_nonevent_cat_others = n_nonevent_others
-- 
2.43.0


From 07458f2ea6d9334df97d9cac4a935cfdf4677b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 057/110] fix: transform options of a variable were applied to
 the subsequent variables and mixed metrics truncated

---
 optbinning/binning/binning_process.py | 34 ++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..ba37ec2 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1401,6 +1401,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+
+                # Metric indices can be mixed with other numeric metrics.
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1426,15 +1429,13 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
-
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": params.get("metric", metric),
+                "metric_special": params.get("metric_special",
+                                             metric_special),
+                "metric_missing": params.get("metric_missing",
+                                             metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1442,7 +1443,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if tparams["metric"] is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1499,6 +1500,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+
+                # Metric indices can be mixed with other numeric metrics.
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1524,22 +1528,20 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
-
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": params.get("metric", metric),
+                    "metric_special": params.get("metric_special",
+                                                 metric_special),
+                    "metric_missing": params.get("metric_missing",
+                                                 metric_missing),
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if tparams["metric"] is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
-- 
2.43.0


From fe883db2ccbec2d25e5aca048a572da06bdc6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 058/110] fix: BinningProcess ignored max_bin_size

---
 optbinning/binning/binning_process.py | 44 +++++++++++++++------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index ba37ec2..2ffee56 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -74,8 +74,8 @@ def _read_column(input_path, extension, column, **kwargs):
 
 def _fit_variable(x, y, name, target_dtype, categorical_variables,
                   binning_fit_params, max_n_prebins, min_prebin_size,
-                  min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-                  max_pvalue_policy, special_codes, split_digits,
+                  min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+                  max_pvalue, max_pvalue_policy, special_codes, split_digits,
                   sample_weight=None):
     params = {}
     dtype = _check_variable_dtype(x)
@@ -92,8 +92,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
-            max_pvalue_policy=max_pvalue_policy,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue, max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
     elif target_dtype == "continuous":
@@ -101,8 +101,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
-            max_pvalue_policy=max_pvalue_policy,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue, max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
     else:
@@ -113,8 +113,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
-            max_pvalue_policy=max_pvalue_policy,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue, max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
 
@@ -130,8 +130,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
 
 def _fit_block(X, y, names, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size,
-               min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-               max_pvalue_policy, special_codes, split_digits,
+               min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+               max_pvalue, max_pvalue_policy, special_codes, split_digits,
                sample_weight=None):
 
     variable_dtypes = {}
@@ -142,14 +142,14 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
             dtype, optb = _fit_variable(
                 X[:, i], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
         else:
             dtype, optb = _fit_variable(
                 X[name], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
 
         variable_dtypes[name] = dtype
         binned_variables[name] = optb
@@ -1121,7 +1121,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                 else:
                     dtype, optb = _fit_variable(
@@ -1129,7 +1130,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
 
                 self._variable_dtypes[name] = dtype
@@ -1147,7 +1149,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
@@ -1159,7 +1162,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
@@ -1241,8 +1245,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 x, y, name, self._target_dtype, self.categorical_variables,
                 self.binning_fit_params, self.max_n_prebins,
                 self.min_prebin_size, self.min_n_bins, self.max_n_bins,
-                self.min_bin_size, self.max_pvalue, self.max_pvalue_policy,
-                self.special_codes, self.split_digits)
+                self.min_bin_size, self.max_bin_size, self.max_pvalue,
+                self.max_pvalue_policy, self.special_codes, self.split_digits)
 
             self._variable_dtypes[name] = dtype
             self._binned_variables[name] = optb
-- 
2.43.0


From 427e90c0eaac84054ba14371cdad52e05942e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 059/110] fix: BinningProcess disk methods failed with paths
 containing dots

---
 optbinning/binning/binning_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 2ffee56..8c88a61 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -6,6 +6,7 @@ Binning process.
 # Copyright (C) 2020
 
 import numbers
+import os
 import pickle
 import time
 
@@ -1199,7 +1200,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # Input file extension
-        extension = input_path.split(".")[1]
+        extension = os.path.splitext(input_path)[1][1:]
 
         # Check extension
         if extension not in ("csv", "parquet"):
@@ -1462,8 +1463,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         metric_special, metric_missing, show_digits, **kwargs):
 
         # check input_path and output_path extensions
-        input_extension = input_path.split(".")[1]
-        output_extension = output_path.split(".")[1]
+        input_extension = os.path.splitext(input_path)[1][1:]
+        output_extension = os.path.splitext(output_path)[1][1:]
 
         if input_extension != "csv" or output_extension != "csv":
             raise ValueError("input_path and output_path must be csv files.")
-- 
2.43.0


From c50ee7a3fd6f9b8aba1219aa8cb196ea644b6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 060/110] fix: updating a variable with a continuous piecewise
 binning raised AttributeError

---
 optbinning/binning/binning_process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 8c88a61..42937c1 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -401,14 +401,14 @@ class BaseBinningProcess:
             optb.binning_table.build()
 
             n_bins = len(optb.splits)
-            if isinstance(optb, OptimalPWBinning) or optb.dtype == "numerical":
-                n_bins += 1
-
-            if isinstance(optb, OptimalPWBinning):
+            if isinstance(optb, _OPTBPW_TYPES):
                 dtype = "numerical"
             else:
                 dtype = optb.dtype
 
+            if dtype == "numerical":
+                n_bins += 1
+
             info = {"dtype": dtype,
                     "status": optb.status,
                     "n_bins": n_bins}
-- 
2.43.0


From 9d79945cf8617f4a73abe04b9075369fde418ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 061/110] fix: selected variables were not refreshed after
 updating a binned variable

---
 optbinning/binning/binning_process.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 42937c1..afd8a4e 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -902,6 +902,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("print_level must be an integer >= 0; got {}."
                              .format(print_level))
 
+        self._check_updated()
+
         n_numerical = list(self._variable_dtypes.values()).count("numerical")
         n_categorical = self._n_variables - n_numerical
 
@@ -925,9 +927,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         self._check_is_fitted()
 
-        if self._is_updated:
-            self._binning_selection_criteria()
-            self._is_updated = False
+        self._check_updated()
 
         df_summary = pd.DataFrame.from_dict(self._variable_stats).T
         df_summary.reset_index(inplace=True)
@@ -1011,6 +1011,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("name and object name must coincide.")
 
         self._binned_variables[name] = optb
+        self._variable_dtypes[name] = getattr(optb, "dtype", "numerical")
         self._is_updated = True
 
     def get_support(self, indices=False, names=False):
@@ -1043,6 +1044,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if indices and names:
             raise ValueError("Only indices or names can be True.")
 
+        self._check_updated()
+
         mask = self._support
         if indices:
             return np.where(mask)[0]
@@ -1051,6 +1054,11 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         else:
             return mask
 
+    def _check_updated(self):
+        if self._is_updated:
+            self._binning_selection_criteria()
+            self._is_updated = False
+
     def _fit(self, X, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
-- 
2.43.0


From f3491a63edcbc8575006814d9073c8da4731b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 062/110] fix: BinningProcess with check_input lost the names
 and dtypes of the columns

---
 optbinning/binning/binning_process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index afd8a4e..91aed66 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1090,8 +1090,12 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         # check X and y data
         if check_input:
-            X = check_array(X, ensure_2d=False, dtype=None,
-                            force_all_finite='allow-nan')
+            # Keep the column names and dtypes of a pandas.DataFrame.
+            X_checked = check_array(X, ensure_2d=False, dtype=None,
+                                    force_all_finite='allow-nan')
+
+            if not isinstance(X, pd.DataFrame):
+                X = X_checked
 
             y = check_array(y, ensure_2d=False, dtype=None,
                             force_all_finite=True)
-- 
2.43.0


From 73d89266fe78e6fef38da986a6ae3ed2b808cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 063/110] fix: transform_disk appended a second table to an
 existing output file

---
 optbinning/binning/binning_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 91aed66..8d49f17 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1564,6 +1564,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 X_transform[:, i] = optb.transform(**tparams)
 
             df = pd.DataFrame(X_transform, columns=selected_variables)
-            df.to_csv(output_path, mode='a', index=False, header=(k == 0))
+            df.to_csv(output_path, mode='w' if k == 0 else 'a', index=False,
+                      header=(k == 0))
 
         return self
-- 
2.43.0


From f081f5b678296d7fc66eea705477e00197a8ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 064/110] fix: updating a variable with a continuous piecewise
 binning made the summary fail

---
 .../binning/piecewise/binning_statistics.py   | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index c5b529c..af14417 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -14,6 +14,7 @@ import pandas as pd
 from scipy import stats
 
 from ...binning.binning_statistics import _check_build_parameters
+from ...binning.binning_statistics import _check_is_analyzed
 from ...binning.binning_statistics import _check_is_built
 from ...binning.binning_statistics import bin_str_format
 from ...binning.binning_statistics import BinningTable
@@ -464,9 +465,11 @@ class PWContinuousBinningTable:
         self.d_metrics = d_metrics
 
         self._mean = None
+        self._woe = None
         self._hhi = None
         self._hhi_norm = None
         self._n_specials = None
+        self._quality_score = None
 
         self._is_built = False
         self._is_analyzed = False
@@ -496,6 +499,8 @@ class PWContinuousBinningTable:
         self._mean = np.zeros(len(self.n_records))
         self._mean[mask] = self.sums[mask] / self.n_records[mask]
 
+        self._woe = np.absolute(self._mean - t_sum / t_n_records).sum()
+
         # Compute HHI
         self._hhi = hhi(p_records)
         self._hhi_norm = hhi(p_records, normalized=True)
@@ -688,3 +693,32 @@ class PWContinuousBinningTable:
 
         if print_output:
             print(report)
+
+        self._is_analyzed = True
+
+    @property
+    def woe(self):
+        """The sum of absolute WoEs.
+
+        Returns
+        -------
+        woe : float
+        """
+        _check_is_built(self)
+
+        return self._woe
+
+    @property
+    def quality_score(self):
+        """The quality score (QS).
+
+        The QS is a rating of the quality and discriminatory power of a
+        variable. The QS ranges from 0 to 1.
+
+        Returns
+        -------
+        quality_score : float
+        """
+        _check_is_analyzed(self)
+
+        return self._quality_score
-- 
2.43.0


From 46aa7a999cea0aa3836f1f1f100e853c4da70c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 065/110] fix: a binary binning process accepted continuous and
 multiclass binned variables

---
 optbinning/binning/binning_process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 8d49f17..51b9467 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -987,7 +987,10 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         # Check current class
         if self._target_dtype == "binary":
             optb_binary = (OptimalBinning, OptimalPWBinning)
-            if not isinstance(optb, optb_binary):
+            # The other optimal binning classes derive from OptimalBinning.
+            optb_other = (ContinuousOptimalBinning, MulticlassOptimalBinning)
+            if (not isinstance(optb, optb_binary) or
+                    isinstance(optb, optb_other)):
                 raise TypeError("target is binary and Object {} must be of "
                                 "type {}.".format(optb, optb_binary))
         elif self._target_dtype == "continuous":
-- 
2.43.0


From 4bc06c5b3892ad87d990a38d43d71d1c76e07a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 066/110] fix: transform options of a variable of
 BinningProcessSketch were applied to the subsequent variables and the index
 was lost

---
 .../binning/distributed/binning_process_sketch.py    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index c06e2c8..5f7425a 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -563,14 +563,13 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
-
             tparams = {
                 "x": x,
                 "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric_special": params.get("metric_special",
+                                             metric_special),
+                "metric_missing": params.get("metric_missing",
+                                             metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -582,7 +581,8 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
             X_transform[:, i] = optb.transform(**tparams)
 
-        return pd.DataFrame(X_transform, columns=selected_variables)
+        return pd.DataFrame(
+            X_transform, columns=selected_variables, index=X.index)
 
     def get_binned_variable(self, name):
         """Return optimal binning sketch object for a given variable name.
-- 
2.43.0


From f5fb8ffd6b8b1315def7b9366ba6178bd3f88560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 067/110] fix: BinningProcessSketch ignored max_bin_size

---
 optbinning/binning/distributed/binning_process_sketch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 5f7425a..3b82e29 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -325,6 +325,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                         min_n_bins=self.min_n_bins,
                         max_n_bins=self.max_n_bins,
                         min_bin_size=self.min_bin_size,
+                        max_bin_size=self.max_bin_size,
                         max_pvalue=self.max_pvalue,
                         max_pvalue_policy=self.max_pvalue_policy,
                         special_codes=self.special_codes,
-- 
2.43.0


From 31e88bece139c86ca0f16922733bd639f0eea8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 068/110] fix: BinningProcessSketch with selection criteria
 raised AttributeError

---
 optbinning/binning/binning_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 51b9467..62808c3 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -390,8 +390,10 @@ class BaseBinningProcess:
                     self._support &= support
 
         # Fixed variables
-        if self.fixed_variables is not None:
-            for fv in self.fixed_variables:
+        # BinningProcessSketch does not support fixed variables.
+        fixed_variables = getattr(self, "fixed_variables", None)
+        if fixed_variables is not None:
+            for fv in fixed_variables:
                 idfv = list(self.variable_names).index(fv)
                 self._support[idfv] = True
 
-- 
2.43.0


From bb6436b9799d9bb6adabdba304eaefb09d4d4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 069/110] fix: merging binning process sketches lost the number
 of samples and failed with sketches without data

---
 .../distributed/binning_process_sketch.py     | 129 +++++++++++-------
 1 file changed, 77 insertions(+), 52 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 3b82e29..38e7476 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -294,54 +294,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             Binning process with new data.
         """
         if not self._is_started:
-            self._n_samples = 0
-            self._n_variables = len(self.variable_names)
-
-            if self.categorical_variables is not None:
-                self._n_categorical = len(self.categorical_variables)
-            else:
-                self._n_categorical = 0
-
-            self._n_numerical = self._n_variables - self._n_categorical
-
-            # Check selection criteria
-            if self.selection_criteria is not None:
-                _check_selection_criteria(self.selection_criteria,
-                                          self._target_dtype)
-
-            # Initialize bsketch for each variable. To avoid mixed dtypes
-            # the user must provide a dtype for all variables. This differs
-            # from the BinningProcess, where dtypes are inferred.
-            for name in self.variable_names:
-                if (self.categorical_variables is not None and
-                        name in self.categorical_variables):
-                    dtype = "categorical"
-                else:
-                    dtype = "numerical"
-
-                optb = OptimalBinningSketch(
-                        name=name, dtype=dtype,
-                        max_n_prebins=self.max_n_prebins,
-                        min_n_bins=self.min_n_bins,
-                        max_n_bins=self.max_n_bins,
-                        min_bin_size=self.min_bin_size,
-                        max_bin_size=self.max_bin_size,
-                        max_pvalue=self.max_pvalue,
-                        max_pvalue_policy=self.max_pvalue_policy,
-                        special_codes=self.special_codes,
-                        split_digits=self.split_digits)
-
-                if self.binning_fit_params is not None:
-                    params = self.binning_fit_params.get(name, {})
-                else:
-                    params = {}
-
-                optb.set_params(**params)
-
-                self._variable_dtypes[name] = dtype
-                self._binned_variables[name] = optb
-
-            self._is_started = True
+            self._start()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -424,9 +377,17 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         if not self.mergeable(bpsketch):
             raise Exception("bpsketch does not share signature.")
 
-        for name in self.variable_names:
-            self._binned_variables[name].merge(
-                bpsketch._binned_variables[name])
+        if bpsketch._is_started:
+            if not self._is_started:
+                self._start()
+
+            for name in self.variable_names:
+                self._binned_variables[name].merge(
+                    bpsketch._binned_variables[name])
+
+            # Update count samples and addition operations
+            self._n_samples += bpsketch._n_samples
+            self._n_add += bpsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -443,7 +404,21 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         -------
         mergeable : bool
         """
-        return self.get_params() == bpsketch.get_params()
+        params = self.get_params()
+        other_params = bpsketch.get_params()
+
+        # These parameters may be a numpy.ndarray.
+        for param in ("variable_names", "categorical_variables",
+                      "special_codes"):
+            value = params.pop(param)
+            other_value = other_params.pop(param)
+
+            if (value is None) != (other_value is None):
+                return False
+            elif value is not None and not np.array_equal(value, other_value):
+                return False
+
+        return params == other_params
 
     def solve(self):
         """Solve optimal binning for all variables using added data.
@@ -641,3 +616,53 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             return np.asarray(self.variable_names)[mask]
         else:
             return mask
+
+    def _start(self):
+        self._n_samples = 0
+        self._n_variables = len(self.variable_names)
+
+        if self.categorical_variables is not None:
+            self._n_categorical = len(self.categorical_variables)
+        else:
+            self._n_categorical = 0
+
+        self._n_numerical = self._n_variables - self._n_categorical
+
+        # Check selection criteria
+        if self.selection_criteria is not None:
+            _check_selection_criteria(self.selection_criteria,
+                                      self._target_dtype)
+
+        # Initialize bsketch for each variable. To avoid mixed dtypes
+        # the user must provide a dtype for all variables. This differs
+        # from the BinningProcess, where dtypes are inferred.
+        for name in self.variable_names:
+            if (self.categorical_variables is not None and
+                    name in self.categorical_variables):
+                dtype = "categorical"
+            else:
+                dtype = "numerical"
+
+            optb = OptimalBinningSketch(
+                    name=name, dtype=dtype,
+                    max_n_prebins=self.max_n_prebins,
+                    min_n_bins=self.min_n_bins,
+                    max_n_bins=self.max_n_bins,
+                    min_bin_size=self.min_bin_size,
+                    max_bin_size=self.max_bin_size,
+                    max_pvalue=self.max_pvalue,
+                    max_pvalue_policy=self.max_pvalue_policy,
+                    special_codes=self.special_codes,
+                    split_digits=self.split_digits)
+
+            if self.binning_fit_params is not None:
+                params = self.binning_fit_params.get(name, {})
+            else:
+                params = {}
+
+            optb.set_params(**params)
+
+            self._variable_dtypes[name] = dtype
+            self._binned_variables[name] = optb
+
+        self._is_started = True
-- 
2.43.0


From 7ed75a4011de8ba2a4c23558b27ca21ea1c453ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 070/110] fix: rounding of a min_max scorecard did not keep the
 minimum and maximum score

---
 optbinning/scorecard/rounding.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/rounding.py b/optbinning/scorecard/rounding.py
index e74dd52..8a975f4 100644
--- a/optbinning/scorecard/rounding.py
+++ b/optbinning/scorecard/rounding.py
@@ -36,8 +36,8 @@ class RoundingMIP:
         min_point = np.rint(np.sum(mins))
         max_point = np.rint(np.sum(maxs))
 
-        min_p = np.min(mins)
-        max_p = np.max(maxs)
+        min_p = np.floor(np.min(mins))
+        max_p = np.ceil(np.max(maxs))
 
         # Initialize solver
         solver = pywraplp.Solver(
@@ -72,6 +72,11 @@ class RoundingMIP:
                 # Min score constraints for each variable
                 solver.Add(min_b[i] <= p[i, j])
 
+            # Min/max must be attained by the bin with min/max point
+            order = np.argsort(points[i], kind="stable")
+            solver.Add(min_b[i] == p[i, int(order[0])])
+            solver.Add(max_b[i] == p[i, int(order[-1])])
+
         # Sum of minimum/maximum point by variable must be min_point/max_point
         solver.Add(solver.Sum([min_b[i] for i in range(nb)]) == min_point)
         solver.Add(solver.Sum([max_b[i] for i in range(nb)]) == max_point)
-- 
2.43.0


From 8f1fe669d54047680d0d34e510b1c9a5d752c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 071/110] fix: pdo_odds scaling of a reversed scorecard did not
 reverse the intercept

---
 optbinning/scorecard/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..09d0dd0 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -133,7 +133,7 @@ def _compute_scorecard_points(points, binning_tables, method, method_data,
         factor = pdo / np.log(2)
         offset = scorecard_points - factor * np.log(odds)
 
-        new_points = -(sense * points + intercept / n) * factor + offset / n
+        new_points = -sense * (points + intercept / n) * factor + offset / n
     elif method == "min_max":
         a = method_data["min"]
         b = method_data["max"]
-- 
2.43.0


From 615e97e29d0184a4dfbc7e05002e60a83f02d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 072/110] fix: scorecard kept the intercept of a previous
 intercept-based fit

---
 optbinning/scorecard/scorecard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 09d0dd0..96af09c 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -628,6 +628,8 @@ class Scorecard(Base, BaseEstimator):
             scaled_points, self.intercept_ = _compute_intercept_based(
                 df_scorecard)
             df_scorecard.loc[:, "Points"] = scaled_points
+        else:
+            self.intercept_ = 0
 
         time_rounding = time.perf_counter()
         if self.rounding:
-- 
2.43.0


From e21464e4feb3c5f4e1e961996f8d87567c23a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 073/110] fix: scorecard points ignored the transform
 parameters of each variable

---
 optbinning/scorecard/scorecard.py | 40 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 96af09c..47acef2 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -27,6 +27,9 @@ from .scorecard_information import print_scorecard_information
 logger = Logger(__name__).logger
 
 
+_BT_METRIC = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}
+
+
 def _check_parameters(binning_process, estimator, scaling_method,
                       scaling_method_params, intercept_based,
                       reverse_scorecard, rounding, verbose):
@@ -406,17 +409,19 @@ class Scorecard(Base, BaseEstimator):
         score: array of shape (n_samples)
             The score of the input samples.
         """
-        X_t = self._transform(
-            X=X, metric="indices", metric_special="empirical",
-            metric_missing="empirical")
+        self._check_is_fitted()
 
-        score_ = np.zeros(X_t.shape[0])
+        score_ = np.zeros(X.shape[0])
         selected_variables = self.binning_process_.get_support(names=True)
 
         for variable in selected_variables:
             mask = self._df_scorecard.Variable == variable
             points = self._df_scorecard[mask].Points.values
-            score_ += points[X_t[variable]]
+            optb = self.binning_process_.get_binned_variable(variable)
+            indices = optb.transform(
+                x=X[variable], metric="indices", metric_special="empirical",
+                metric_missing="empirical")
+            score_ += points[indices]
 
         return score_ + self.intercept_
 
@@ -524,10 +529,8 @@ class Scorecard(Base, BaseEstimator):
 
         if self._target_dtype == "binary":
             metric = "woe"
-            bt_metric = "WoE"
         elif self._target_dtype == "continuous":
             metric = "mean"
-            bt_metric = "Mean"
 
         if self.verbose:
             logger.info("Dataset: {} target.".format(self._target_dtype))
@@ -586,27 +589,40 @@ class Scorecard(Base, BaseEstimator):
             logger.info("Scorecard table building started.")
 
         selected_variables = self.binning_process_.get_support(names=True)
+        transform_params = self.binning_process_.binning_transform_params or {}
         binning_tables = []
         for i, variable in enumerate(selected_variables):
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
                 show_digits=show_digits, add_totals=False)
             c = coefs[i]
+
+            # Specific transform parameters take precedence
+            params = transform_params.get(variable, {})
+            v_metric = params.get("metric", metric)
+            v_metric_special = params.get("metric_special", metric_special)
+            v_metric_missing = params.get("metric_missing", metric_missing)
+
+            if v_metric == "indices":
+                values = np.arange(len(binning_table))
+            else:
+                values = binning_table[_BT_METRIC[v_metric]]
+
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = binning_table[bt_metric] * c
+            binning_table.loc[:, "Points"] = values * c
 
             nt = len(binning_table)
-            if metric_special != 'empirical':
+            if v_metric_special != 'empirical':
                 if isinstance(optb.special_codes, dict):
                     n_specials = len(optb.special_codes)
                 else:
                     n_specials = 1
 
                 binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = metric_special * c
-            if metric_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = metric_missing * c
+                    nt-1-n_specials:nt-2, "Points"] = v_metric_special * c
+            if v_metric_missing != 'empirical':
+                binning_table.loc[nt-1, "Points"] = v_metric_missing * c
 
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
-- 
2.43.0


From f6e6879f07a75641a1badb9f4b4bb104f8b02889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 074/110] fix: scorecard scored unknown categories with the
 points of the missing values

---
 optbinning/scorecard/scorecard.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 47acef2..36b6718 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -6,6 +6,7 @@ Scorecard development.
 # Kasper De Blieck <kasperdeblieck@hotmail.com>
 # Copyright (C) 2020
 
+import copy
 import numbers
 import pickle
 import time
@@ -255,6 +256,8 @@ class Scorecard(Base, BaseEstimator):
 
         # auxiliary
         self._target_dtype = None
+        self._df_scorecard = None
+        self._unknown_points = None
 
         # timing
         self._time_total = None
@@ -417,11 +420,14 @@ class Scorecard(Base, BaseEstimator):
         for variable in selected_variables:
             mask = self._df_scorecard.Variable == variable
             points = self._df_scorecard[mask].Points.values
-            optb = self.binning_process_.get_binned_variable(variable)
+            optb = copy.copy(
+                self.binning_process_.get_binned_variable(variable))
+            optb.cat_unknown = None
             indices = optb.transform(
                 x=X[variable], metric="indices", metric_special="empirical",
                 metric_missing="empirical")
-            score_ += points[indices]
+            score_ += np.where(indices < 0, self._unknown_points[variable],
+                               points[indices])
 
         return score_ + self.intercept_
 
@@ -591,6 +597,7 @@ class Scorecard(Base, BaseEstimator):
         selected_variables = self.binning_process_.get_support(names=True)
         transform_params = self.binning_process_.binning_transform_params or {}
         binning_tables = []
+        unknown_points = []
         for i, variable in enumerate(selected_variables):
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
@@ -624,12 +631,20 @@ class Scorecard(Base, BaseEstimator):
             if v_metric_missing != 'empirical':
                 binning_table.loc[nt-1, "Points"] = v_metric_missing * c
 
+            # Points of categories unseen during training
+            unknown = 0
+            if optb.dtype == "categorical":
+                unknown = optb.transform(
+                    np.array([object()]), metric=v_metric)[0]
+            unknown_points.append(unknown * c)
+
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
             binning_tables.append(binning_table)
 
         df_scorecard = pd.concat(binning_tables)
         df_scorecard.reset_index()
+        unknown_points = pd.Series(unknown_points, index=selected_variables)
 
         # Apply score points
         if self.scaling_method is not None:
@@ -638,9 +653,14 @@ class Scorecard(Base, BaseEstimator):
                 points, binning_tables, self.scaling_method,
                 self.scaling_method_params, intercept, self.reverse_scorecard)
 
+            unknown_points = _compute_scorecard_points(
+                unknown_points, binning_tables, self.scaling_method,
+                self.scaling_method_params, intercept, self.reverse_scorecard)
+
             df_scorecard.loc[:, "Points"] = scaled_points
 
         if self.intercept_based:
+            unknown_points -= df_scorecard.groupby("Variable").Points.min()
             scaled_points, self.intercept_ = _compute_intercept_based(
                 df_scorecard)
             df_scorecard.loc[:, "Points"] = scaled_points
@@ -670,10 +690,13 @@ class Scorecard(Base, BaseEstimator):
                 if self.intercept_based:
                     self.intercept_ = np.rint(self.intercept_)
 
+            unknown_points = np.rint(unknown_points)
+
             df_scorecard.loc[:, "Points"] = round_points
         self._time_rounding = time.perf_counter() - time_rounding
 
         self._df_scorecard = df_scorecard
+        self._unknown_points = unknown_points
 
         self._time_build_scorecard = time.perf_counter() - time_build_scorecard
         self._time_total = time.perf_counter() - time_init
-- 
2.43.0


From 7565dae9ff8e434e7277ea48e2c826dcdb9ebe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 075/110] fix: monitoring counted scores equal to a split in
 the wrong bin

---
 optbinning/scorecard/monitoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..b1bf43b 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -499,8 +499,8 @@ class ScorecardMonitoring(BaseEstimator):
         n_bins = len(splits) + 1
 
         # Compute basic metrics
-        indices_a = np.digitize(score_actual, splits, right=True)
-        indices_e = np.digitize(score_expected, splits, right=True)
+        indices_a = np.digitize(score_actual, splits, right=False)
+        indices_e = np.digitize(score_expected, splits, right=False)
 
         if self._target_dtype == "binary":
             n_nonevent_a = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From dc047d43770992e3c4e93246403e79f64760a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 076/110] fix: PSI of a variable counted special and missing
 values in the first bin and ignored bins without expected records

---
 optbinning/scorecard/monitoring.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index b1bf43b..49b3f53 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -781,10 +781,15 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
+            ta = optb.transform(X_actual[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+            te = optb.transform(X_expected[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
 
-            n_bins = te.max() + 1
+            bins = sc_table[sc_table.Variable == name]["Bin"].values
+            n_bins = len(bins)
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
@@ -799,7 +804,6 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_e = n_records_e / t_n_records_e
 
             psi = jeffrey(p_records_a, p_records_e, return_sum=False)
-            bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
 
             df_psi = pd.DataFrame({
                 "Variable": [name] * n_bins,
-- 
2.43.0


From 98201d5c3e33abf056595a4483ddc972c446b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 077/110] fix: monitoring failed with pure or empty score bins

---
 optbinning/scorecard/monitoring.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 49b3f53..91546b7 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -619,7 +619,14 @@ class ScorecardMonitoring(BaseEstimator):
                 [n_nonevent_a[i], n_nonevent_e[i]],
                 [n_event_a[i], n_event_e[i]]])
 
-            t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            if n_records_a[i] == 0 or n_records_e[i] == 0:
+                # No records to compare
+                t, p = np.nan, np.nan
+            elif 0 in obs.sum(axis=1):
+                # Pure bin, both event rates are equal
+                t, p = 0.0, 1.0
+            else:
+                t, p, _, _ = stats.chi2_contingency(obs, correction=False)
 
             t_statistics.append(t)
             p_values.append(p)
-- 
2.43.0


From 4768abfc51cbff00c6007f0d3ecc0fe34066a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 078/110] fix: monitoring statistics depended on the container
 of the target

---
 optbinning/scorecard/monitoring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 91546b7..b5038c6 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -256,6 +256,9 @@ class ScorecardMonitoring(BaseEstimator):
         # Check if scorecard is fitted
         self.scorecard._check_is_fitted()
 
+        y_actual = np.asarray(y_actual)
+        y_expected = np.asarray(y_expected)
+
         target_dtype = type_of_target(y_actual)
         target_dtype_e = type_of_target(y_expected)
 
-- 
2.43.0


From a9bb196412d31477295cefe4692db29a064f0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 079/110] fix: PSI was nan if a bin is empty in both samples

---
 optbinning/binning/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index 7e9e55a..6df1aaf 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -126,7 +126,8 @@ def jeffrey(x, y, return_sum=False):
     """
     x, y = _check_x_y(x, y)
 
-    j = special.xlogy(x - y, x / y)
+    with np.errstate(divide="ignore", invalid="ignore"):
+        j = np.where(x == y, 0.0, special.xlogy(x - y, x / y))
 
     if return_sum:
         return j.sum()
-- 
2.43.0


From f72d5f325f90e4f9252e77286368e960d4ddd06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 080/110] fix: classification metrics failed with a single
 class

---
 optbinning/metrics/classification.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index 9e443b4..681c061 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -89,7 +89,8 @@ def imbalanced_classification_metrics(y_true, y_pred):
     metrics : dict
         Dictionary of metrics.
     """
-    tn, fp, fn, tp = confusion_matrix(y_true, y_pred).ravel()
+    tn, fp, fn, tp = confusion_matrix(
+        y_true, y_pred, labels=[0, 1]).ravel()
 
     # Sensitivity - True positive rate (TPR)
     tpr = tp / (tp + fn)
-- 
2.43.0


From a4d62feea55cd1ff51880506df9e76da53abb833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 081/110] fix: counterfactuals ignore the outcome without the
 proximity objective

---
 optbinning/scorecard/counterfactual/mip.py    | 19 ++++++++++++------
 .../scorecard/counterfactual/multi_mip.py     | 20 +++++++++++++------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..6adb20a 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -71,10 +71,13 @@ class CFMIP:
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
+        # Constraint: transformed query
+        self.add_constraint_metric(
+            solver, p, x, nbins, metric, x_p, z)
+
         # Constraint: proximity
         if "proximity" in self.objectives:
-            self.add_constraint_proximity(
-                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
         # Constraint: closeness
         if "closeness" in self.objectives:
@@ -146,10 +149,13 @@ class CFMIP:
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
+            # Constraint: transformed query
+            self.add_constraint_metric(
+                solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -259,12 +265,13 @@ class CFMIP:
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
         for i in range(p):
             # Absolute value
             solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
 
+    def add_constraint_metric(self, solver, p, x, nbins, metric, x_p, z):
+        for i in range(p):
             # Compute x'
             solver.Add(x_p[i] == x[i] + solver.Sum([
                 (metric[i][j] - x[i]) * z[i, j] for j in range(nbins[i])]))
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..eb64344 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -54,10 +54,13 @@ class MCFMIP(CFMIP):
 
         # Constraints
         for k in range(self.K):
+            # Constraint: transformed query
+            self.add_constraint_metric(
+                solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -157,10 +160,13 @@ class MCFMIP(CFMIP):
 
             # Constraints
             for k in range(self.K):
+                # Constraint: transformed query
+                self.add_constraint_metric(
+                    solver, p, x, nbins, metric, x_p, z)
+
                 # Constraint: proximity
                 if "proximity" in self.objectives:
-                    self.add_constraint_proximity(
-                        solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                    self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
                 # Constraint: closeness
                 if "closeness" in self.objectives:
@@ -316,13 +322,15 @@ class MCFMIP(CFMIP):
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f, u, d
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
         for k in range(self.K):
             for i in range(p):
                 # Absolute value
                 solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
 
+    def add_constraint_metric(self, solver, p, x, nbins, metric, x_p, z):
+        for k in range(self.K):
+            for i in range(p):
                 # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
                     [(metric[i][j] - x[i]) * z[k, i, j]
-- 
2.43.0


From 01df9c92bae612dd6b2ee3869007845c41f08ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 082/110] fix: counterfactuals ignore the special and missing
 values of the scorecard

---
 .../counterfactual/counterfactual.py          |  4 +++-
 .../scorecard/counterfactual/model_data.py    | 13 +++++++----
 .../scorecard/counterfactual/problem_data.py  | 14 ++++-------
 optbinning/scorecard/scorecard.py             | 23 +++++++++++--------
 4 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 485f7b7..0fd300e 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -618,7 +618,9 @@ class Counterfactual(BaseCounterfactual):
             query = pd.DataFrame.from_dict(query, orient="index").T
 
         x = self.scorecard.binning_process_.transform(
-            query[self._variable_names]).values.ravel()
+            query[self._variable_names],
+            metric_special=self.scorecard._metric_special,
+            metric_missing=self.scorecard._metric_missing).values.ravel()
 
         return x, query
 
diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 2220286..dfb569a 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -9,18 +9,21 @@ Counterfactual model data.
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
 
-    sc = scorecard.table(style="detailed")
-    metric_name = "WoE" if scorecard._target_dtype == "binary" else "Mean"
-
     # Number of bins, metric and indices
     nbins = []
     metric = []
     indices = []
     for i, v in enumerate(s_vars):
-        metric_i = sc[sc.Variable == v][metric_name].values
+        metric_i = scorecard._metric_values[v]
 
         if not special_missing:
-            metric_i = metric_i[:-2]
+            optb = scorecard.binning_process_.get_binned_variable(v)
+            if isinstance(optb.special_codes, dict):
+                n_specials = len(optb.special_codes)
+            else:
+                n_specials = 1
+
+            metric_i = metric_i[:-1-n_specials]
 
         _metric = []
         _indices = []
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 2b0131b..e0c9ac4 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -12,14 +12,6 @@ def problem_data(scorecard, X):
     s_vars = X.columns
     n_vars = X.shape[1]
 
-    # Scorecard table
-    sc = scorecard.table(style="detailed")
-
-    if scorecard._target_dtype == "binary":
-        sc["Points"] = sc["WoE"] * sc["Coefficient"]
-    else:
-        sc["Points"] = sc["Mean"] * sc["Coefficient"]
-
     # Linear model coefficients
 
     # Only index into the intercept if it is an array, it is a scalar otherwise
@@ -37,7 +29,7 @@ def problem_data(scorecard, X):
     wrange = np.empty(n_vars)
 
     for i, v in enumerate(s_vars):
-        v_points = sc[sc["Variable"] == v]["Points"]
+        v_points = scorecard._metric_values[v] * coef[i]
         _min = np.min(v_points)
         _max = np.max(v_points)
         min_p += _min
@@ -49,7 +41,9 @@ def problem_data(scorecard, X):
     max_p += intercept
 
     # Mahalanobis distance
-    Xt = scorecard.binning_process_.transform(X).values
+    Xt = scorecard.binning_process_.transform(
+        X, metric_special=scorecard._metric_special,
+        metric_missing=scorecard._metric_missing).values
     F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
     mu = Xt.mean(axis=0)
 
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 36b6718..f82111c 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -258,6 +258,7 @@ class Scorecard(Base, BaseEstimator):
         self._target_dtype = None
         self._df_scorecard = None
         self._unknown_points = None
+        self._metric_values = None
 
         # timing
         self._time_total = None
@@ -598,6 +599,7 @@ class Scorecard(Base, BaseEstimator):
         transform_params = self.binning_process_.binning_transform_params or {}
         binning_tables = []
         unknown_points = []
+        metric_values = {}
         for i, variable in enumerate(selected_variables):
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
@@ -611,13 +613,10 @@ class Scorecard(Base, BaseEstimator):
             v_metric_missing = params.get("metric_missing", metric_missing)
 
             if v_metric == "indices":
-                values = np.arange(len(binning_table))
+                values = np.arange(len(binning_table), dtype=float)
             else:
-                values = binning_table[_BT_METRIC[v_metric]]
-
-            binning_table.loc[:, "Variable"] = variable
-            binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = values * c
+                values = binning_table[_BT_METRIC[v_metric]].values.astype(
+                    float)
 
             nt = len(binning_table)
             if v_metric_special != 'empirical':
@@ -626,10 +625,15 @@ class Scorecard(Base, BaseEstimator):
                 else:
                     n_specials = 1
 
-                binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = v_metric_special * c
+                values[nt-1-n_specials:nt-1] = v_metric_special
             if v_metric_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = v_metric_missing * c
+                values[nt-1] = v_metric_missing
+
+            metric_values[variable] = values
+
+            binning_table.loc[:, "Variable"] = variable
+            binning_table.loc[:, "Coefficient"] = c
+            binning_table.loc[:, "Points"] = values * c
 
             # Points of categories unseen during training
             unknown = 0
@@ -697,6 +701,7 @@ class Scorecard(Base, BaseEstimator):
 
         self._df_scorecard = df_scorecard
         self._unknown_points = unknown_points
+        self._metric_values = metric_values
 
         self._time_build_scorecard = time.perf_counter() - time_build_scorecard
         self._time_total = time.perf_counter() - time_init
-- 
2.43.0


From 57fce9daec11908b1232500b2248c87a046627b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 083/110] fix: counterfactuals crash if variables have no or
 equally many candidate bins

---
 optbinning/scorecard/counterfactual/counterfactual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 0fd300e..61650b6 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -595,7 +595,8 @@ class Counterfactual(BaseCounterfactual):
         new_indices = {}
         score = 0
         for i, v in enumerate(self._variable_names):
-            new_index = np.array(indices[i])[solution[i]]
+            new_index = np.array(indices[i], dtype=int)[
+                solution[i].astype(bool)]
             if len(new_index):
                 new_indices[v] = new_index
 
-- 
2.43.0


From f066608b8150468b4071161aa67dd75ae9bee356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 084/110] fix: counterfactuals of a scorecard with a single
 variable

---
 optbinning/scorecard/counterfactual/counterfactual.py | 2 +-
 optbinning/scorecard/counterfactual/problem_data.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 61650b6..b028db4 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -434,7 +434,7 @@ class Counterfactual(BaseCounterfactual):
 
         # Set max changes
         if max_changes is None:
-            _max_changes = len(self._variable_names) // 2
+            _max_changes = max(1, len(self._variable_names) // 2)
         else:
             _max_changes = max_changes
 
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index e0c9ac4..d646115 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -44,7 +44,7 @@ def problem_data(scorecard, X):
     Xt = scorecard.binning_process_.transform(
         X, metric_special=scorecard._metric_special,
         metric_missing=scorecard._metric_missing).values
-    F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
+    F = np.linalg.cholesky(np.linalg.inv(np.atleast_2d(np.cov(Xt.T))))
     mu = Xt.mean(axis=0)
 
     return intercept, coef, min_p, max_p, wrange, F, mu
-- 
2.43.0


From 7706b5c35ef72acfe4431e5aeb540c208393c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 085/110] fix: MIP models reject a fractional time limit

---
 optbinning/binning/mip.py                        | 2 +-
 optbinning/binning/multidimensional/mip_2d.py    | 2 +-
 optbinning/scorecard/counterfactual/mip.py       | 2 +-
 optbinning/scorecard/counterfactual/multi_mip.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index a46314f..f6b1e7c 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -178,7 +178,7 @@ class BinningMIP:
         self._x = x
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         status = self.solver_.Solve()
 
         if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 2c94c7a..2296e80 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -85,7 +85,7 @@ class Binning2DMIP:
 
     def solve(self):
         # Solve
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 6adb20a..e9a5a03 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -194,7 +194,7 @@ class CFMIP:
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index eb64344..c8009ea 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -233,7 +233,7 @@ class MCFMIP(CFMIP):
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
-- 
2.43.0


From 04680d515e72d2b3fa9cbb1ee7af5e01a2509376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 086/110] fix: counterfactuals may report the bin of the query
 as a change

---
 optbinning/scorecard/counterfactual/model_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index dfb569a..d3d1762 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -5,6 +5,8 @@ Counterfactual model data.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numpy as np
+
 
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
@@ -28,7 +30,7 @@ def model_data(scorecard, x, special_missing):
         _metric = []
         _indices = []
         for j, m in enumerate(metric_i):
-            if m != x[i]:
+            if not np.isclose(m, x[i], rtol=1e-9, atol=1e-12):
                 _indices.append(j)
                 _metric.append(m)
 
-- 
2.43.0


From 78ce3139ca945b937a26ea43d03eea33367611bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 087/110] fix: counterfactuals with null coefficients are
 infeasible

---
 optbinning/scorecard/counterfactual/problem_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index d646115..e7f4eeb 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -35,7 +35,12 @@ def problem_data(scorecard, X):
         min_p += _min
         max_p += _max
 
-        wrange[i] = 1.0 / (_max - _min)
+        vrange = _max - _min
+        if vrange == 0:
+            # Null coefficient. Range of the metric, or 1 if it is constant.
+            vrange = np.ptp(scorecard._metric_values[v]) or 1.0
+
+        wrange[i] = 1.0 / vrange
 
     min_p += intercept
     max_p += intercept
-- 
2.43.0


From 4a4c3cb1d8cad79eff1ba1ba96edbcf7b81b0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 088/110] fix: piecewise analysis compared special groups if
 special codes are a dict

---
 optbinning/binning/piecewise/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index af14417..be28b27 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -317,7 +317,7 @@ class PWBinningTable(BinningTable):
 
         # Significance tests
         n_bins = len(self._n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_nev = self.n_nonevent[:n_metric]
         n_ev = self.n_event[:n_metric]
@@ -633,7 +633,7 @@ class PWContinuousBinningTable:
 
         # Significance tests
         n_bins = len(self.n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_records = self.n_records[:n_metric]
         mean = self._mean[:n_metric]
-- 
2.43.0


From ed58b58293a8a4f9e64c8f0e98b931922c091de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 089/110] fix: totals of the continuous piecewise table ignored
 special and missing

---
 optbinning/binning/piecewise/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index be28b27..48c0ae5 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -538,8 +538,8 @@ class PWContinuousBinningTable:
             df["c{}".format(i)] = list(self.coef[:, i]) + extra_bins
 
         if add_totals:
-            t_min = np.nanmin(self.min_target[:-n_bins_extra])
-            t_max = np.nanmax(self.max_target[:-n_bins_extra])
+            t_min = np.nanmin(self.min_target.astype(float))
+            t_max = np.nanmax(self.max_target.astype(float))
             t_n_zeros = self.n_zeros.sum()
             totals = ["", t_n_records, 1, t_sum, "", t_min, t_max, t_n_zeros]
             totals += ["-"] * n_coefs
-- 
2.43.0


From 97dd6f95d600f7b37d9bfed65ce00a74ddd37cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 090/110] fix: OptimalPWBinning.fit modified its estimator
 parameter

---
 optbinning/binning/piecewise/binning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 73eb33b..1e82ad3 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -9,6 +9,7 @@ import time
 
 import numpy as np
 
+from sklearn.base import clone
 from sklearn.linear_model import LogisticRegression
 
 from ...binning.binning_statistics import target_info
@@ -358,17 +359,19 @@ class OptimalPWBinning(BasePWBinning):
         time_estimator = time.perf_counter()
 
         if self.estimator is None:
-            self.estimator = LogisticRegression()
+            estimator = LogisticRegression()
 
             if self.verbose:
                 logger.info("Pre-binning: set logistic regression as an "
                             "estimator.")
+        else:
+            estimator = clone(self.estimator, safe=False)
 
         if self.verbose:
             logger.info("Pre-binning: estimator fitting started.")
 
-        self.estimator.fit(x_clean.reshape(-1, 1), y_clean)
-        event_rate = self.estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
+        estimator.fit(x_clean.reshape(-1, 1), y_clean)
+        event_rate = estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
 
         self._time_estimator = time.perf_counter() - time_estimator
 
-- 
2.43.0


From 0b2462b9470c61d6d04323ae6e88d4160f1a4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 091/110] fix: piecewise binning failed with as many subsamples
 as values

---
 optbinning/binning/piecewise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7302d6f..7a7f2d0 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -409,7 +409,7 @@ class BasePWBinning(Base, BaseEstimator):
         n_bins = n_splits + 1
         self._n_bins = n_bins
 
-        if self.n_subsamples is None or self.n_subsamples > len(x):
+        if self.n_subsamples is None or self.n_subsamples >= len(x):
             x_subsamples = x
             pred_subsamples = prediction
 
-- 
2.43.0


From 0eabb1e2c73b7053610a810e8a3ca8683a8a1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 092/110] fix: piecewise binnings removed outliers twice

---
 optbinning/binning/piecewise/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7a7f2d0..43a0903 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -372,8 +372,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
@@ -391,8 +389,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
-- 
2.43.0


From d7b95d65032c82758c90ec75542f568949d41558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 093/110] fix: piecewise WoE is undefined if the event rate is
 not in (0, 1)

---
 optbinning/binning/piecewise/transformations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 1940aa9..c1cd9c1 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -141,8 +141,11 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
         n_special, event_rate_special, event_rate_missing)
 
     if metric == "woe":
+        # The WoE is only defined for event rates in (0, 1)
+        eps = 1e-8
         x_transform[clean_mask] = transform_event_rate_to_woe(
-            x_transform[clean_mask], n_nonevent, n_event)
+            np.clip(x_transform[clean_mask], eps, 1 - eps), n_nonevent,
+            n_event)
 
     return x_transform
 
-- 
2.43.0


From 8aff19515129e954ded51a5fbf27d5bfb64727bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 094/110] fix: piecewise binning fitted values equal to a null
 split in the wrong bin

---
 optbinning/binning/piecewise/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 43a0903..9046422 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -467,7 +467,12 @@ class BasePWBinning(Base, BaseEstimator):
             extrapolation="continue",
             verbose=self.verbose)
 
-        optimizer.fit(x_subsamples, pred_subsamples, splits, lb=lb, ub=ub)
+        # RobustPWRegression moves null splits to the right, assigning values
+        # equal to zero to the previous bin. Move them to the left.
+        pw_splits = np.array(splits, dtype=float)
+        pw_splits[pw_splits == 0] = -1e-9
+
+        optimizer.fit(x_subsamples, pred_subsamples, pw_splits, lb=lb, ub=ub)
 
         self._c = optimizer.coef_
 
-- 
2.43.0


From 197e9565f6c8059f64f106c44b0752faf361e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 095/110] fix: a failed fit or solve left the object with
 attributes of two fits

---
 optbinning/binning/base.py                    | 17 +++++++++++
 optbinning/binning/binning.py                 |  2 ++
 optbinning/binning/binning_process.py         | 15 ++++++++++
 optbinning/binning/continuous_binning.py      |  2 ++
 .../distributed/binning_process_sketch.py     | 30 +++++++++++++------
 .../binning/distributed/binning_sketch.py     |  3 ++
 optbinning/binning/mdlp.py                    |  3 ++
 optbinning/binning/multiclass_binning.py      |  2 ++
 .../binning/multidimensional/binning_2d.py    |  2 ++
 .../multidimensional/continuous_binning_2d.py |  2 ++
 optbinning/binning/outlier.py                 |  3 ++
 optbinning/binning/piecewise/base.py          |  2 ++
 .../binning/uncertainty/binning_scenarios.py  |  2 ++
 .../counterfactual/counterfactual.py          |  3 ++
 optbinning/scorecard/monitoring.py            |  2 ++
 optbinning/scorecard/scorecard.py             |  2 ++
 16 files changed, 83 insertions(+), 9 deletions(-)

diff --git a/optbinning/binning/base.py b/optbinning/binning/base.py
index 2dc04ed..04553a9 100644
--- a/optbinning/binning/base.py
+++ b/optbinning/binning/base.py
@@ -7,6 +7,7 @@ Base optimal binning algorithm class.
 
 from abc import ABCMeta
 from abc import abstractmethod
+from functools import wraps
 
 import numpy as np
 
@@ -38,6 +39,22 @@ def json_categories(categories):
     return array
 
 
+def restore_if_fails(method):
+    """Restore the attributes of the instance if the method raises, so that a
+    failed fit does not mix the attributes of two fits."""
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        attributes = self.__dict__.copy()
+
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = attributes
+            raise
+
+    return wrapper
+
+
 class Base:
     def _check_is_fitted(self):
         if not self._is_fitted:
diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index a7bacd9..2aebb56 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -21,6 +21,7 @@ from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import BaseOptimalBinning
 from .base import json_categories
 from .base import json_value
+from .base import restore_if_fails
 from .binning_information import print_binning_information
 from .binning_statistics import bin_categorical
 from .binning_statistics import bin_info
@@ -533,6 +534,7 @@ class OptimalBinning(BaseOptimalBinning):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, x, y, sample_weight=None, check_input=False):
         """Fit the optimal binning according to the given training data.
 
diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 62808c3..1dc93a0 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -24,6 +24,7 @@ from sklearn.utils.multiclass import type_of_target
 
 from ..logging import Logger
 from .base import Base
+from .base import restore_if_fails
 from .binning import OptimalBinning
 from .binning_process_information import print_binning_process_information
 from .continuous_binning import ContinuousOptimalBinning
@@ -398,6 +399,8 @@ class BaseBinningProcess:
                 self._support[idfv] = True
 
     def _binning_selection_criteria(self):
+        self._variable_stats = {}
+
         for i, name in enumerate(self.variable_names):
             optb = self._binned_variables[name]
             optb.binning_table.build()
@@ -603,6 +606,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         self._is_updated = False
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, X, y, sample_weight=None, check_input=False):
         """Fit the binning process. Fit the optimal binning to all variables
         according to the given training data.
@@ -634,6 +638,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         return self._fit(X, y, sample_weight, check_input)
 
+    @restore_if_fails
     def fit_disk(self, input_path, target, **kwargs):
         """Fit the binning process according to the given training data on
         disk.
@@ -657,6 +662,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         return self._fit_disk(input_path, target, **kwargs)
 
+    @restore_if_fails
     def fit_from_dict(self, dict_optb):
         """Fit the binning process from a dict of OptimalBinning objects
         already fitted.
@@ -1067,6 +1073,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
     def _fit(self, X, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+
         if self.verbose:
             logger.info("Binning process started.")
             logger.info("Options: check parameters.")
@@ -1210,6 +1219,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
     def _fit_disk(self, input_path, target, **kwargs):
         time_init = time.perf_counter()
 
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+
         if self.verbose:
             logger.info("Binning process started.")
             logger.info("Options: check parameters.")
@@ -1289,6 +1301,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
     def _fit_from_dict(self, dict_optb):
         time_init = time.perf_counter()
 
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+
         if self.verbose:
             logger.info("Binning process started.")
             logger.info("Options: check parameters.")
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 2724a96..cb36434 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -19,6 +19,7 @@ from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import json_categories
 from .base import json_value
+from .base import restore_if_fails
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
@@ -417,6 +418,7 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, x, y, sample_weight=None, check_input=False):
         """Fit the optimal binning according to the given training data.
 
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 38e7476..7ed9e9a 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -15,6 +15,7 @@ import pandas as pd
 
 from sklearn.base import BaseEstimator
 
+from ...binning.base import restore_if_fails
 from ...binning.binning_process import _check_selection_criteria
 from ...binning.binning_process import _METRICS
 from ...binning.binning_process import BaseBinningProcess
@@ -420,6 +421,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         return params == other_params
 
+    @restore_if_fails
     def solve(self):
         """Solve optimal binning for all variables using added data.
 
@@ -435,17 +437,27 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             raise NotDataAddedError(
                 "No data was added. Add data before solving.")
 
-        for i, name in enumerate(self.variable_names):
-            if self.verbose:
-                logger.info("Binning variable ({} / {}): {}."
-                            .format(i, self._n_variables, name))
-            self._binned_variables[name].solve()
+        # Attributes of the variables, to be restored if a variable fails
+        attributes = {name: optb.__dict__.copy()
+                      for name, optb in self._binned_variables.items()}
 
-        if self.verbose:
-            logger.info("Binning process variable selection...")
+        try:
+            for i, name in enumerate(self.variable_names):
+                if self.verbose:
+                    logger.info("Binning variable ({} / {}): {}."
+                                .format(i, self._n_variables, name))
+                self._binned_variables[name].solve()
 
-        # Compute binning statistics and decide whether a variable is selected
-        self._binning_selection_criteria()
+            if self.verbose:
+                logger.info("Binning process variable selection...")
+
+            # Compute binning statistics and decide whether a variable is
+            # selected
+            self._binning_selection_criteria()
+        except BaseException:
+            for name, optb in self._binned_variables.items():
+                optb.__dict__ = attributes[name]
+            raise
 
         self._time_streaming_solve += time.perf_counter() - time_init
         self._n_solve += 1
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index df5526c..4396f0c 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -16,6 +16,7 @@ from sklearn.exceptions import NotFittedError
 
 from ...binning.auto_monotonic import auto_monotonic
 from ...binning.auto_monotonic import peak_valley_trend_change_heuristic
+from ...binning.base import restore_if_fails
 from ...binning.binning_statistics import bin_categorical
 from ...binning.binning_statistics import bin_info
 from ...binning.binning_statistics import BinningTable
@@ -580,6 +581,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         df = pd.DataFrame.from_dict(self._solve_stats).T
         plot_progress_divergence(df, self.divergence)
 
+    @restore_if_fails
     def solve(self):
         """Solve optimal binning using added data.
 
@@ -985,6 +987,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         elif self.divergence == "triangular":
             dv = self._binning_table.triangular
 
+        self._solve_stats = dict(self._solve_stats)
         self._solve_stats[self._n_solve] = {
             "n_add": self._n_add,
             "n_records": self._bsketch.n,
diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 83c3d7f..4be9cab 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -14,6 +14,8 @@ from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 from sklearn.utils import check_array
 
+from .base import restore_if_fails
+
 
 def _check_parameters(min_samples_split, min_samples_leaf, max_candidates):
     if (not isinstance(min_samples_split, numbers.Integral) or
@@ -79,6 +81,7 @@ class MDLP(BaseEstimator):
 
         self._is_fitted = None
 
+    @restore_if_fails
     def fit(self, x, y):
         """Fit MDLP discretization algorithm.
 
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 0da1d62..b13c26b 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -18,6 +18,7 @@ from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import json_value
+from .base import restore_if_fails
 from .binning import OptimalBinning
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
@@ -375,6 +376,7 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, x, y, check_input=False):
         """Fit the optimal binning according to the given training data.
 
diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 04e2998..f4f8638 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -15,6 +15,7 @@ from sklearn.tree import DecisionTreeClassifier
 
 from ...information import solver_statistics
 from ...logging import Logger
+from ..base import restore_if_fails
 from ..binning import OptimalBinning
 from ..binning_statistics import target_info
 from ..prebinning import PreBinning
@@ -431,6 +432,7 @@ class OptimalBinning2D(OptimalBinning):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, x, y, z, check_input=False):
         """Fit the optimal binning 2D according to the given training data.
 
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index b450628..973bc1b 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -15,6 +15,7 @@ from sklearn.tree import DecisionTreeRegressor
 
 from ...information import solver_statistics
 from ...logging import Logger
+from ..base import restore_if_fails
 from .binning_2d import OptimalBinning2D
 from .binning_statistics_2d import ContinuousBinningTable2D
 from .cp_2d import Binning2DCP
@@ -358,6 +359,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, x, y, z, check_input=False):
         """Fit the optimal binning 2D according to the given training data.
 
diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 73c99a9..87ed1b8 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -12,6 +12,8 @@ import numpy as np
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 
+from .base import restore_if_fails
+
 
 class OutlierDetector:
     """Base class for all outlier detectors."""
@@ -21,6 +23,7 @@ class OutlierDetector:
         # flag
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, x, y=None):
         """Fit outlier detector.
 
diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 9046422..8401150 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -16,6 +16,7 @@ from sklearn.model_selection import train_test_split
 
 from ...binning.auto_monotonic import type_of_monotonic_trend
 from ...binning.base import Base
+from ...binning.base import restore_if_fails
 from ...binning.binning import OptimalBinning
 from ...binning.continuous_binning import ContinuousOptimalBinning
 from ...binning.preprocessing import split_data
@@ -283,6 +284,7 @@ class BasePWBinning(Base, BaseEstimator):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, x, y, lb=None, ub=None, check_input=False):
         """Fit the optimal piecewise binning according to the given training
         data.
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index af3d0ff..8bd63a8 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -16,6 +16,7 @@ from sklearn.utils import check_array
 from ...information import solver_statistics
 from ...logging import Logger
 from ...binning.preprocessing import split_data_scenarios
+from ..base import restore_if_fails
 from ..binning import OptimalBinning
 from ..binning_statistics import bin_info
 from ..binning_statistics import BinningTable
@@ -333,6 +334,7 @@ class SBOptimalBinning(OptimalBinning):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, X, Y, weights=None, check_input=False):
         """Fit the optimal binning given a list of scenarios.
 
diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index b028db4..20a7dcf 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -11,6 +11,7 @@ import time
 import numpy as np
 import pandas as pd
 
+from ...binning.base import restore_if_fails
 from ...information import solver_statistics
 from ...logging import Logger
 from ..scorecard import Scorecard
@@ -240,6 +241,7 @@ class Counterfactual(BaseCounterfactual):
         self._is_fitted = False
         self._is_generated = False
 
+    @restore_if_fails
     def fit(self, X):
         """Fit counterfactual. Compute problem data to generate counterfactual
         explanations.
@@ -333,6 +335,7 @@ class Counterfactual(BaseCounterfactual):
             self._time_fit, time_solver, self._time_postprocessing,
             dict_user_options)
 
+    @restore_if_fails
     def generate(self, query, y, outcome_type, n_cf, method="weighted",
                  objectives=None, max_changes=None, actionable_features=None,
                  hard_constraints=None, soft_constraints=None,
diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index b5038c6..32e439d 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -18,6 +18,7 @@ from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 from sklearn.utils.multiclass import type_of_target
 
+from ..binning.base import restore_if_fails
 from ..binning.binning_statistics import bin_str_format
 from ..binning.metrics import jeffrey
 from ..binning.prebinning import PreBinning
@@ -222,6 +223,7 @@ class ScorecardMonitoring(BaseEstimator):
         # flags
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, X_actual, y_actual, X_expected, y_expected):
         """Fit monitoring with actual and expected data.
 
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index f82111c..ba52afa 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -19,6 +19,7 @@ from sklearn.base import clone
 from sklearn.utils.multiclass import type_of_target
 
 from ..binning.base import Base
+from ..binning.base import restore_if_fails
 from ..binning.binning_process import BinningProcess
 from ..logging import Logger
 from .rounding import RoundingMIP
@@ -269,6 +270,7 @@ class Scorecard(Base, BaseEstimator):
 
         self._is_fitted = False
 
+    @restore_if_fails
     def fit(self, X, y, sample_weight=None, metric_special=0, metric_missing=0,
             show_digits=2, check_input=False):
         """Fit scorecard.
-- 
2.43.0


From f928a09149306c0cba8c28ee0b44ecff53d0c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:09 +0000
Subject: [PATCH 096/110] fix: get_support of unfitted outlier detectors raised
 AttributeError

---
 optbinning/binning/outlier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 87ed1b8..d8308af 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -93,6 +93,8 @@ class RangeDetector(BaseEstimator, OutlierDetector):
         self.k = k
         self.method = method
 
+        super().__init__()
+
     def _fit(self, x, y=None):
         if self.method not in ("ETI", "HDI"):
             raise ValueError('Invalid value for method. Allowed string '
@@ -149,6 +151,8 @@ class ModifiedZScoreDetector(BaseEstimator, OutlierDetector):
     def __init__(self, threshold=3.5):
         self.threshold = threshold
 
+        super().__init__()
+
     def _fit(self, x, y=None):
         if (not isinstance(self.threshold, numbers.Number) or
                 self.threshold < 0):
@@ -187,6 +191,8 @@ class YQuantileDetector(BaseEstimator, OutlierDetector):
         self.outlier_params = outlier_params
         self.n_bins = n_bins
 
+        super().__init__()
+
     def _fit(self, x, y):
         if self.outlier_detector not in ("range", "zscore"):
             raise ValueError('Invalid value for outlier_detector. Allowed '
-- 
2.43.0


From 0a387fa80d5a8f6116f462407ec6b2d34d26f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:10 +0000
Subject: [PATCH 097/110] fix: analysis of a 2D binning table not built raised
 AttributeError

---
 optbinning/binning/multidimensional/binning_statistics_2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 2c93723..f9e0be1 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -483,6 +483,8 @@ class BinningTable2D(BinningTable):
         `scipy.stats.fisher_exact <https://docs.scipy.org/doc/scipy/reference/
         generated/scipy.stats.fisher_exact.html>`_.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
@@ -852,6 +854,8 @@ class ContinuousBinningTable2D(ContinuousBinningTable):
         the total target mean, :math:`r_i` is the number of records for each
         bin, and :math:`r_T` is the total number of records.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
-- 
2.43.0


From db33a27013e2dda25bf274f3485f7935886248ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:10 +0000
Subject: [PATCH 098/110] fix: binning process sketch did not check
 binning_fit_params

---
 .../distributed/binning_process_sketch.py     | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 7ed9e9a..13335f8 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -655,24 +655,24 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             else:
                 dtype = "numerical"
 
-            optb = OptimalBinningSketch(
-                    name=name, dtype=dtype,
-                    max_n_prebins=self.max_n_prebins,
-                    min_n_bins=self.min_n_bins,
-                    max_n_bins=self.max_n_bins,
-                    min_bin_size=self.min_bin_size,
-                    max_bin_size=self.max_bin_size,
-                    max_pvalue=self.max_pvalue,
-                    max_pvalue_policy=self.max_pvalue_policy,
-                    special_codes=self.special_codes,
-                    split_digits=self.split_digits)
+            params = {
+                "max_n_prebins": self.max_n_prebins,
+                "min_n_bins": self.min_n_bins,
+                "max_n_bins": self.max_n_bins,
+                "min_bin_size": self.min_bin_size,
+                "max_bin_size": self.max_bin_size,
+                "max_pvalue": self.max_pvalue,
+                "max_pvalue_policy": self.max_pvalue_policy,
+                "special_codes": self.special_codes,
+                "split_digits": self.split_digits
+                }
 
             if self.binning_fit_params is not None:
-                params = self.binning_fit_params.get(name, {})
-            else:
-                params = {}
+                params.update(self.binning_fit_params.get(name, {}))
 
-            optb.set_params(**params)
+            # Parameters are checked on instantiation
+            optb = OptimalBinningSketch(
+                **{"name": name, "dtype": dtype, **params})
 
             self._variable_dtypes[name] = dtype
             self._binned_variables[name] = optb
-- 
2.43.0


From 8ec7e6421196f0149005fde9ad68b7a1a16d98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:10 +0000
Subject: [PATCH 099/110] fix: statistics of the solver of a previous fit if it
 was not run

---
 optbinning/binning/binning.py                       | 2 ++
 optbinning/binning/continuous_binning.py            | 2 ++
 optbinning/binning/distributed/binning_sketch.py    | 3 +++
 optbinning/binning/multiclass_binning.py            | 2 ++
 optbinning/binning/uncertainty/binning_scenarios.py | 2 ++
 5 files changed, 11 insertions(+)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 2aebb56..ce43083 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -914,6 +914,8 @@ class OptimalBinning(BaseOptimalBinning):
 
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
+            self._optimizer = None
+            self._time_optimizer = None
             self._splits_optimal = splits
             # A single group of user-provided categories is a bin.
             self._solution = np.full(
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index cb36434..58d2b4d 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -756,6 +756,8 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
+            self._optimizer = None
+            self._time_optimizer = None
             self._splits_optimal = splits
             # A single group of user-provided categories is a bin.
             self._solution = np.full(
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 4396f0c..ff8b5a1 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -438,6 +438,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._binning_table = None
         self._n_refinements = 0
         self._n_prebins = None
+        self._optimizer = None
 
         # streaming stats
         self._n_add = 0
@@ -847,6 +848,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
+            self._optimizer = None
+            self._time_optimizer = None
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits)).astype(bool)
 
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index b13c26b..0b46f95 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -679,6 +679,8 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         if not len(n_nonevent):
             self._status = "OPTIMAL"
+            self._optimizer = None
+            self._time_optimizer = None
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits), dtype=bool)
 
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8bd63a8..90ba597 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -743,6 +743,8 @@ class SBOptimalBinning(OptimalBinning):
 
         if not len(n_nonevent):
             self._status = "OPTIMAL"
+            self._optimizer = None
+            self._time_optimizer = None
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits), dtype=bool)
 
-- 
2.43.0


From ecef616c6b7634da464f80c6b4c8898d29fce179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:33 +0000
Subject: [PATCH 100/110] fix: binning table plot shows the metric of the
 missing bin without special bin

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 061ece1..66cef3f 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -778,7 +778,7 @@ class BinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
@@ -1348,7 +1348,7 @@ class MulticlassBinningTable:
             label_missing = "Bin missing"
 
             for i, cl in enumerate(self.classes):
-                ax2.plot(pos_missing, metric_values[pos_missing, i],
+                ax2.plot(pos_missing, metric_values[-1, i],
                          marker="o", color=colors[i])
 
         if add_special and add_missing:
@@ -1858,7 +1858,7 @@ class ContinuousBinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
-- 
2.43.0


From db1014528c04d134c173fafcf1a237e69a765723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:33 +0000
Subject: [PATCH 101/110] fix: binning table plot labels without special bins
 when special_codes is a dict

---
 optbinning/binning/binning_statistics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 66cef3f..497e993 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -801,7 +801,8 @@ class BinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-1 - self._n_specials] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
@@ -1367,7 +1368,7 @@ class MulticlassBinningTable:
         if show_bin_labels:
             bin_str = self._bin_str
             if not add_special:
-                bin_str = bin_str[:-2] + [bin_str[-1]]
+                bin_str = bin_str[:-1 - self._n_specials] + [bin_str[-1]]
 
             if not add_missing:
                 bin_str = bin_str[:-1]
@@ -1881,7 +1882,8 @@ class ContinuousBinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-1 - self._n_specials] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
-- 
2.43.0


From 9c26d079943a9d3fbac7b0460739d69428e50a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:33 +0000
Subject: [PATCH 102/110] fix: psi_plot with a single score bin

---
 optbinning/scorecard/monitoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 32e439d..d20024b 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -437,7 +437,7 @@ class ScorecardMonitoring(BaseEstimator):
 
         n_bins = len(self._n_records_a)
         indices = np.arange(n_bins)
-        width = np.min(np.diff(indices))/3
+        width = 1 / 3
 
         p_records_a = self._n_records_a / self._n_records_a.sum() * 100.0
         p_records_e = self._n_records_e / self._n_records_e.sum() * 100.0
-- 
2.43.0


From 8c1c06c84a5fcb2c2b4ef4ac7d8475c25b89188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:33 +0000
Subject: [PATCH 103/110] fix: intervals of the stability report are closed on
 the left

---
 optbinning/scorecard/monitoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index d20024b..5b71998 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -77,7 +77,7 @@ def print_psi_report(df_psi):
 
     splits = [0.1, 0.25]
     n_bins = len(splits) + 1
-    indices = np.digitize(psi, splits, right=True)
+    indices = np.digitize(psi, splits)
 
     psi_bins = np.empty(n_bins, dtype=np.int64)
     for i in range(n_bins):
@@ -108,7 +108,7 @@ def print_tests_report(df_tests):
 
     splits = [0.05, 0.1, 0.5]
     n_bins = len(splits) + 1
-    indices = np.digitize(pvalues, splits, right=True)
+    indices = np.digitize(pvalues, splits)
 
     pvalue_bins = np.empty(n_bins, dtype=np.int64)
     for i in range(n_bins):
-- 
2.43.0


From 1986bb57ba025b3a4e68da3d9f94aa4738790aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:56 +0000
Subject: [PATCH 104/110] fix: empty user_splits in multiclass and scenario
 binning

---
 optbinning/binning/multiclass_binning.py            | 3 ++-
 optbinning/binning/uncertainty/binning_scenarios.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 0b46f95..9a7b929 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -566,7 +566,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             user_splits = check_array(self.user_splits, ensure_2d=False,
-                                      dtype=None, force_all_finite=True)
+                                      dtype=None, force_all_finite=True,
+                                      ensure_min_samples=0)
 
             if len(set(user_splits)) != len(user_splits):
                 raise ValueError("User splits are not unique.")
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 90ba597..b3d47a0 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -530,7 +530,7 @@ class SBOptimalBinning(OptimalBinning):
         if self.user_splits is not None:
             user_splits = check_array(
                 self.user_splits, ensure_2d=False, dtype=None,
-                force_all_finite=True)
+                force_all_finite=True, ensure_min_samples=0)
 
             if len(set(user_splits)) != len(user_splits):
                 raise ValueError("User splits are not unique.")
-- 
2.43.0


From 608dca1b66815fd816bb17a6fca6a80cadc5ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:17 +0000
Subject: [PATCH 105/110] fix: number of variables and constraints of the MIP
 solver were swapped

---
 optbinning/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/information.py b/optbinning/information.py
index e37b83b..35d9104 100644
--- a/optbinning/information.py
+++ b/optbinning/information.py
@@ -65,8 +65,8 @@ def solver_statistics(solver_type, solver):
         time_optimizer = solver.WallTime()
 
     elif solver_type == "mip":
-        d_solver["n_constraints"] = solver.NumConstraints()
         d_solver["n_variables"] = solver.NumVariables()
+        d_solver["n_constraints"] = solver.NumConstraints()
         d_solver["objective"] = solver.Objective().Value()
         d_solver["best_bound"] = solver.Objective().BestBound()
 
-- 
2.43.0


From 79f5e3974078ba2dfcc3498da1da1d4521c58073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:30 +0000
Subject: [PATCH 106/110] fix: multiclass analysis names the classes by their
 position

---
 optbinning/binning/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 497e993..14ac983 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -1457,9 +1457,9 @@ class MulticlassBinningTable:
         mono_string = "    Class {:>2}            {:>15}\n"
         monotonic_string = ""
 
-        for i in range(len(self.classes)):
+        for i, cl in enumerate(self.classes):
             type_mono = type_of_monotonic_trend(self._event_rate[:n_metric, i])
-            monotonic_string += mono_string.format(i, type_mono)
+            monotonic_string += mono_string.format(cl, type_mono)
 
         report = (
             "-------------------------------------------------\n"
-- 
2.43.0


From 01e585db54ec372d58fd3724265ddf93f0ecd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:00 +0000
Subject: [PATCH 107/110] fix: a split point equal to -2 was discarded by CART
 pre-binning

The threshold of the leaves of a tree is TREE_UNDEFINED (-2), and all
thresholds equal to -2 were removed, also those of internal nodes.
---
 optbinning/binning/prebinning.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index 9b02baf..9fd3061 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -115,8 +115,10 @@ class PreBinning:
                 est = DecisionTreeRegressor(**cart_kwargs)
 
             est.fit(x.reshape(-1, 1), y, sample_weight=sample_weight)
-            splits = np.unique(est.tree_.threshold)
-            self._splits = splits[splits != _tree.TREE_UNDEFINED]
+            # Leaves are identified by the feature, since the threshold of an
+            # internal node might be equal to TREE_UNDEFINED.
+            internal = est.tree_.feature != _tree.TREE_UNDEFINED
+            self._splits = np.unique(est.tree_.threshold[internal])
 
         elif self.method == "mdlp":
             mdlp_kwargs = {"min_samples_leaf": self.min_bin_size}
-- 
2.43.0


From 2532a44103f3527fc54069846c4ca0cae75a3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:46 +0000
Subject: [PATCH 108/110] fix: user splits with categories of several types
 lost their rows

The categories of a group were converted to strings, so that the rows of
categories of other types were counted in the first bin, and categories not
in the user splits were not moved to others.
---
 optbinning/binning/preprocessing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index aebc122..b13dc31 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -343,7 +343,8 @@ def preprocessing_user_splits_categorical(user_splits, x, y,
 
     # If category is not in user_splits, then move category to cat_others
     cat_others = np.array([c for c in categories
-                           if c not in unique_user_categories])
+                           if c not in unique_user_categories],
+                          dtype=categories.dtype)
 
     mask_others = pd.Series(x).isin(cat_others).values
 
@@ -371,7 +372,7 @@ def preprocessing_user_splits_categorical(user_splits, x, y,
 
     splits_nominal = np.array(range(n_user_splits))
     sorted_idx = np.argsort(event_rate)
-    sorted_splits = np.array([np.array(split)
+    sorted_splits = np.array([np.array(split, dtype=object)
                               for split in user_splits[sorted_idx]],
                              dtype=object)
 
-- 
2.43.0


From 433619edf36db7e123dc693338ed5b9337332fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:46 +0000
Subject: [PATCH 109/110] fix: lists of categories with missing values
 converted to strings

np.asarray converts a list of strings and NaN to strings, so that missing
values became a category named nan and were unknown to transform.
---
 .../binning/multidimensional/preprocessing_2d.py    |  6 ++++--
 .../binning/multidimensional/transformations_2d.py  | 13 +++++++------
 optbinning/binning/preprocessing.py                 | 13 ++++++++++++-
 optbinning/binning/transformations.py               | 13 +++++++------
 4 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 82d9bfd..da7952d 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -11,6 +11,7 @@ import pandas as pd
 from sklearn.utils import check_array
 from sklearn.utils import check_consistent_length
 
+from ..preprocessing import as_array
 from ..preprocessing import categorical_transform
 
 
@@ -51,6 +52,9 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
     Returns
     -------
     """
+    x = as_array(x)
+    y = as_array(y)
+
     if check_input:
         x = check_array(x, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
@@ -63,8 +67,6 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
 
         check_consistent_length(x, y, z)
 
-    x = np.asarray(x)
-    y = np.asarray(y)
     z = np.asarray(z)
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(z.dtype, np.number):
diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index 66f071c..8557510 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -10,6 +10,7 @@ import pandas as pd
 
 from sklearn.utils import check_array
 
+from ..preprocessing import as_array
 from ..transformations import _check_metric_special_missing
 from ..transformations import _check_show_digits
 from .binning_statistics_2d import bin_categorical
@@ -121,6 +122,9 @@ def transform_binary_target(dtype_x, dtype_y, splits_x, splits_y, x, y,
     _check_metric_special_missing(metric_special, metric_missing)
     _check_show_digits(show_digits)
 
+    x = as_array(x)
+    y = as_array(y)
+
     if check_input:
         x = check_array(x, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
@@ -128,9 +132,6 @@ def transform_binary_target(dtype_x, dtype_y, splits_x, splits_y, x, y,
         y = check_array(y, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
 
-    x = np.asarray(x)
-    y = np.asarray(y)
-
     special_mask, missing_mask, clean_mask = _mask_special_missing_xy(
         x, y, special_codes_x, special_codes_y)
 
@@ -199,6 +200,9 @@ def transform_continuous_target(dtype_x, dtype_y, splits_x, splits_y, x, y,
     _check_metric_special_missing(metric_special, metric_missing)
     _check_show_digits(show_digits)
 
+    x = as_array(x)
+    y = as_array(y)
+
     if check_input:
         x = check_array(x, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
@@ -206,9 +210,6 @@ def transform_continuous_target(dtype_x, dtype_y, splits_x, splits_y, x, y,
         y = check_array(y, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
 
-    x = np.asarray(x)
-    y = np.asarray(y)
-
     special_mask, missing_mask, clean_mask = _mask_special_missing_xy(
         x, y, special_codes_x, special_codes_y)
 
diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index b13dc31..dcece26 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -21,6 +21,16 @@ from .outlier import RangeDetector
 from .outlier import YQuantileDetector
 
 
+def as_array(x):
+    """Convert to array. Strings are kept along with values of other types,
+    e.g. missing values, instead of converting all of them to string."""
+    array = np.asarray(x)
+    if array.dtype.kind in "US" and not isinstance(x, np.ndarray):
+        array = np.asarray(x, dtype=object)
+
+    return array
+
+
 def categorical_transform(x, y, sample_weight=None):
     if sample_weight is None:
         event_rate = pd.Series(y).groupby(x).mean()
@@ -168,6 +178,8 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             raise ValueError("fix_lb must be <= fix_ub; got {} <= {}."
                              .format(fix_lb, fix_ub))
 
+    x = as_array(x)
+
     if check_input:
         x = check_array(x, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
@@ -177,7 +189,6 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
 
         check_consistent_length(x, y)
 
-    x = np.asarray(x)
     y = np.asarray(y)
 
     sample_weight = _check_sample_weight(sample_weight, x, dtype=x.dtype)
diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 8c7bd89..fe46109 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -14,6 +14,7 @@ from sklearn.utils import check_array
 
 from .binning_statistics import bin_categorical
 from .binning_statistics import bin_str_format
+from .preprocessing import as_array
 
 
 def transform_event_rate_to_woe(event_rate, n_nonevent, n_event):
@@ -237,12 +238,12 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
     _check_metric_special_missing(metric_special, metric_missing)
     _check_show_digits(show_digits)
 
+    x = as_array(x)
+
     if check_input:
         x = check_array(x, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
 
-    x = np.asarray(x)
-
     special_mask, missing_mask, clean_mask, n_special = _mask_special_missing(
         x, special_codes)
 
@@ -325,12 +326,12 @@ def transform_multiclass_target(splits, x, n_event, special_codes, metric,
     _check_metric_special_missing(metric_special, metric_missing)
     _check_show_digits(show_digits)
 
+    x = as_array(x)
+
     if check_input:
         x = check_array(x, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
 
-    x = np.asarray(x)
-
     special_mask, missing_mask, clean_mask, n_special = _mask_special_missing(
         x, special_codes)
 
@@ -396,12 +397,12 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
     _check_metric_special_missing(metric_special, metric_missing)
     _check_show_digits(show_digits)
 
+    x = as_array(x)
+
     if check_input:
         x = check_array(x, ensure_2d=False, dtype=None,
                         force_all_finite='allow-nan')
 
-    x = np.asarray(x)
-
     special_mask, missing_mask, clean_mask, n_special = _mask_special_missing(
         x, special_codes)
 
-- 
2.43.0


From 86b940333b1fd5924d23f3635acef623cb86e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:29 +0000
Subject: [PATCH 110/110] fix: interruption at the end of solve left the new
 solution of the variables

---
 .../distributed/binning_process_sketch.py        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 13335f8..3874089 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -454,19 +454,19 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             # Compute binning statistics and decide whether a variable is
             # selected
             self._binning_selection_criteria()
+
+            self._time_streaming_solve += time.perf_counter() - time_init
+            self._n_solve += 1
+
+            # Completed successfully
+            self._is_solved = True
+
+            return self
         except BaseException:
             for name, optb in self._binned_variables.items():
                 optb.__dict__ = attributes[name]
             raise
 
-        self._time_streaming_solve += time.perf_counter() - time_init
-        self._n_solve += 1
-
-        # Completed successfully
-        self._is_solved = True
-
-        return self
-
     def transform(self, X, metric="woe", metric_special=0, metric_missing=0,
                   show_digits=2, check_input=False):
         """Transform given data to metric using bins from each fitted optimal
-- 
2.43.0

