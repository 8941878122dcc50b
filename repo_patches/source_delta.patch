From de745904c10a4039a5d4fe7cb8a8303ea7130e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 01/65] fix: do not report a previous fit's wild bootstrap
 after refitting analytically

---
 diff_diff/estimators.py | 3 +++
 diff_diff/twfe.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..2f3dc65 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -203,6 +203,9 @@ class DifferenceInDifferences:
         >>> did.fit(data, outcome='sales', treatment='treated', time='post',
         ...         absorb=['firm_id'])
         """
+        # Results of an earlier fit must not leak into this one
+        self._bootstrap_results = None
+
         # Parse formula if provided
         if formula is not None:
             outcome, treatment, time, covariates = self._parse_formula(formula, data)
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..7440c09 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -86,6 +86,9 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         DiDResults
             Estimation results.
         """
+        # Results of an earlier fit must not leak into this one
+        self._bootstrap_results = None
+
         # Validate unit column exists
         if unit not in data.columns:
             raise ValueError(f"Unit column '{unit}' not found in data")
-- 
2.43.0


From 89f5eb7d0d9d97bdb29381c8453fd2c3c02a32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 02/65] fix: make within_transform exact for unbalanced panels

---
 diff_diff/utils.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..71b0a8a 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1459,23 +1459,40 @@ def within_transform(
     unit_grouper = data.groupby(unit, sort=False)
     time_grouper = data.groupby(time, sort=False)
 
+    unit_codes = pd.factorize(data[unit])[0]
+    time_codes = pd.factorize(data[time])[0]
+    unit_counts = np.bincount(unit_codes)
+    time_counts = np.bincount(time_codes)
+
+    def _demean(var: str) -> pd.Series:
+        unit_means = unit_grouper[var].transform("mean")
+        time_means = time_grouper[var].transform("mean")
+        demeaned = data[var] - unit_means - time_means + data[var].mean()
+
+        # A single pass is exact for balanced panels only. Otherwise alternate
+        # the unit and time projections until neither leaves a remainder.
+        resid = demeaned.to_numpy(dtype=float, copy=True)
+        tol = 1e-12 * max(1.0, float(np.max(np.abs(data[var].to_numpy(dtype=float)))))
+        n_iter = 0
+        while n_iter < 10000:
+            unit_rem = np.bincount(unit_codes, weights=resid) / unit_counts
+            time_rem = np.bincount(time_codes, weights=resid) / time_counts
+            if not max(np.max(np.abs(unit_rem)), np.max(np.abs(time_rem))) > tol:
+                break
+            resid -= unit_rem[unit_codes]
+            resid -= (np.bincount(time_codes, weights=resid) / time_counts)[time_codes]
+            n_iter += 1
+        return demeaned if n_iter == 0 else pd.Series(resid, index=data.index)
+
     if inplace:
         # Modify columns in place
         for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            data[var] = data[var] - unit_means - time_means + grand_mean
+            data[var] = _demean(var)
     else:
         # Build all demeaned columns at once to avoid DataFrame fragmentation
         demeaned_data = {}
         for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            demeaned_data[f"{var}{suffix}"] = (
-                data[var] - unit_means - time_means + grand_mean
-            ).values
+            demeaned_data[f"{var}{suffix}"] = _demean(var).values
 
         # Add all columns at once
         demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
-- 
2.43.0


From 12a4d96573f8c5933ddfabfc335e5abc43c4b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 03/65] fix: decide rank deficiency independently of the units
 of the regressors

---
 diff_diff/linalg.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index f5764d8..48ad8f4 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -82,6 +82,20 @@ def _factorize_cluster_ids(cluster_ids: np.ndarray) -> np.ndarray:
 # =============================================================================
 
 
+def _column_scale(X: np.ndarray) -> np.ndarray:
+    """
+    Scale of each column of X (its Euclidean norm) for rank detection and least squares.
+
+    Columns that are numerically zero next to the largest one keep the largest scale, so that
+    they still count as zero after scaling.
+    """
+    norms = np.sqrt(np.sum(X**2, axis=0))
+    largest = norms.max() if norms.size else 0.0
+    if not np.isfinite(largest) or largest == 0:
+        return np.ones(X.shape[1])
+    return np.where(norms > 1e-10 * largest, norms, largest)
+
+
 def _detect_rank_deficiency(
     X: np.ndarray,
     rcond: Optional[float] = None,
@@ -116,7 +130,9 @@ def _detect_rank_deficiency(
 
     # Compute pivoted QR decomposition: X @ P = Q @ R
     # P is a permutation matrix, represented as pivot indices
-    Q, R, pivot = qr(X, mode='economic', pivoting=True)
+    # Columns are brought to a common norm first (R's tolerance is relative to each column's
+    # own norm), so that the units a covariate is measured in do not decide what is dropped.
+    Q, R, pivot = qr(X / _column_scale(X), mode='economic', pivoting=True)
 
     # Determine rank tolerance
     # R's qr() uses tol = 1e-07 by default, which is sqrt(eps) ≈ 1.49e-08
@@ -678,9 +694,10 @@ def _solve_ols_numpy(
 
         # Solve the reduced system (now full-rank)
         # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
+        scale = _column_scale(X_reduced)
         coefficients_reduced = scipy_lstsq(
-            X_reduced, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
-        )[0]
+            X_reduced / scale, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
+        )[0] / scale
 
         # Expand coefficients to full size with NaN for dropped columns
         coefficients = _expand_coefficients_with_nan(coefficients_reduced, k, kept_cols)
@@ -698,7 +715,10 @@ def _solve_ols_numpy(
     else:
         # Full-rank case: proceed normally
         # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
-        coefficients = scipy_lstsq(X, y, lapack_driver="gelsd", check_finite=False, cond=1e-07)[0]
+        scale = _column_scale(X)
+        coefficients = scipy_lstsq(
+            X / scale, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
+        )[0] / scale
 
         # Compute residuals and fitted values
         fitted = X @ coefficients
-- 
2.43.0


From 8af80c528671c42f756f367a6c8cbe95ebf0a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 04/65] fix: keep covariates passed next to a formula

---
 diff_diff/estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 2f3dc65..198e513 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -208,7 +208,9 @@ class DifferenceInDifferences:
 
         # Parse formula if provided
         if formula is not None:
-            outcome, treatment, time, covariates = self._parse_formula(formula, data)
+            outcome, treatment, time, formula_covariates = self._parse_formula(formula, data)
+            extra = [c for c in (covariates or []) if c not in (formula_covariates or [])]
+            covariates = (formula_covariates or []) + extra or None
         elif outcome is None or treatment is None or time is None:
             raise ValueError(
                 "Must provide either 'formula' or all of 'outcome', 'treatment', and 'time'"
-- 
2.43.0


From 539a46e458dcb1cce59fad9a6f6ebee69a2917bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 05/65] fix: impose the null hypothesis in the wild cluster
 bootstrap p-value

---
 diff_diff/utils.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 71b0a8a..a705c32 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -445,16 +445,21 @@ def wild_bootstrap_se(
     t_stat_original = (original_coef - null_hypothesis) / se_original
 
     # Step 2: Impose null hypothesis (restricted estimation)
-    # Create restricted y: y_restricted = y - X[:, coef_index] * null_hypothesis
-    # This imposes the null that the coefficient equals null_hypothesis
-    y_restricted = y - X[:, coefficient_index] * null_hypothesis
-
-    # Fit restricted model (but we need to drop the column for the restricted coef)
-    # Actually, for WCR bootstrap we keep all columns but impose the null via residuals
-    # Re-estimate with the restricted dependent variable
-    beta_restricted, residuals_restricted, _ = _solve_ols_linalg(
-        X, y_restricted, return_vcov=False
-    )
+    # The restricted model has no free coefficient in the tested column
+    X_restricted = np.delete(X, coefficient_index, axis=1)
+    null_part = X[:, coefficient_index] * null_hypothesis
+    if X_restricted.shape[1] > 0:
+        _, residuals_restricted, _ = _solve_ols_linalg(
+            X_restricted, y - null_part, return_vcov=False, rank_deficient_action="silent"
+        )
+    else:
+        residuals_restricted = y - null_part
+    fitted_restricted = y - residuals_restricted
+
+    # The spread of the coefficient itself (SE, percentile interval) comes from the
+    # unrestricted residuals, with the same weights: beta* = beta_hat + projection @ (w * e)
+    residuals_unrestricted = y - X @ beta_hat
+    projection = np.linalg.pinv(X)[coefficient_index]
 
     # Create cluster-to-observation mapping for efficiency
     cluster_map = {c: np.where(cluster_ids == c)[0] for c in unique_clusters}
@@ -473,14 +478,14 @@ def wild_bootstrap_se(
         for g, indices in enumerate(cluster_indices):
             obs_weights[indices] = cluster_weights[g]
 
-        # Construct bootstrap sample: y* = X @ beta_restricted + e_restricted * weights
-        y_star = X @ beta_restricted + residuals_restricted * obs_weights
+        # Construct bootstrap sample under the null: restricted fit + e_restricted * weights
+        y_star = fitted_restricted + residuals_restricted * obs_weights
 
         # Estimate bootstrap coefficients with cluster-robust SE
         beta_star, residuals_star, vcov_star = _solve_ols_linalg(
             X, y_star, cluster_ids=cluster_ids, return_vcov=True
         )
-        bootstrap_coefs[b] = beta_star[coefficient_index]
+        bootstrap_coefs[b] = original_coef + projection @ (residuals_unrestricted * obs_weights)
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
 
         # Compute bootstrap t-statistic (under null hypothesis)
-- 
2.43.0


From 1ff0aca9d6da4b52835b647fe77fd19fb0d976c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 06/65] fix: let CallawaySantAnna.set_params change the
 bootstrap weights actually used

---
 diff_diff/staggered.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..7bc3f34 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1103,6 +1103,11 @@ class CallawaySantAnna(
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
+        # bootstrap_weight_type is a deprecated alias of bootstrap_weights
+        if "bootstrap_weights" in params:
+            self.bootstrap_weight_type = self.bootstrap_weights
+        elif "bootstrap_weight_type" in params:
+            self.bootstrap_weights = self.bootstrap_weight_type
         return self
 
     def summary(self) -> str:
-- 
2.43.0


From 584ce1b654e151eee8a2e30e94c1bd456caa2567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 07/65] fix: do not count never-treated units coded as inf as a
 treatment cohort

---
 diff_diff/staggered.py   | 4 ++--
 diff_diff/sun_abraham.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 7bc3f34..5e61d91 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -641,7 +641,7 @@ class CallawaySantAnna(
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
+        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0 and g != np.inf])
 
         # Never-treated indicator (first_treat = 0 or inf)
         df['_never_treated'] = (df[first_treat] == 0) | (df[first_treat] == np.inf)
@@ -652,7 +652,7 @@ class CallawaySantAnna(
             '_never_treated': 'first'
         }).reset_index()
 
-        n_treated_units = (unit_info[first_treat] > 0).sum()
+        n_treated_units = ((unit_info[first_treat] > 0) & ~unit_info['_never_treated']).sum()
         n_control_units = (unit_info['_never_treated']).sum()
 
         if n_control_units == 0:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..580fbd9 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -488,7 +488,7 @@ class SunAbraham:
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
+        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0 and g != np.inf])
 
         # Never-treated indicator
         df["_never_treated"] = (df[first_treat] == 0) | (df[first_treat] == np.inf)
@@ -500,7 +500,7 @@ class SunAbraham:
             .reset_index()
         )
 
-        n_treated_units = int((unit_info[first_treat] > 0).sum())
+        n_treated_units = int(((unit_info[first_treat] > 0) & ~unit_info['_never_treated']).sum())
         n_control_units = int((unit_info["_never_treated"]).sum())
 
         if n_control_units == 0:
-- 
2.43.0


From 279855beaf3a36db2f6bfc00ac157127071d1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 08/65] fix: report undefined rather than null inference when
 the standard error is not positive

---
 diff_diff/diagnostics.py   | 4 ++--
 diff_diff/sun_abraham.py   | 8 ++++----
 diff_diff/synthetic_did.py | 4 ++--
 diff_diff/triple_diff.py   | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..8d704ba 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -662,7 +662,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -783,7 +783,7 @@ def leave_one_out_test(
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
     se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
+    t_stat = mean_effect / se if se > 0 else np.nan
 
     # Use t-distribution for p-value
     df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 580fbd9..ae6f457 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -600,7 +600,7 @@ class SunAbraham:
             coef_index_map,
         )
 
-        overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+        overall_t = overall_att / overall_se if overall_se > 0 else np.nan
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
 
@@ -623,7 +623,7 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = overall_att / overall_se if overall_se > 0 else np.nan
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -640,7 +640,7 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val if se_val > 0 else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -878,7 +878,7 @@ class SunAbraham:
             agg_var = float(weight_vec @ vcov_subset @ weight_vec)
             agg_se = np.sqrt(max(agg_var, 0))
 
-            t_stat = agg_effect / agg_se if agg_se > 0 else 0.0
+            t_stat = agg_effect / agg_se if agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
             ci = compute_confidence_interval(agg_effect, agg_se, self.alpha)
 
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..de6a3d0 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -336,8 +336,8 @@ class SyntheticDiD(DifferenceInDifferences):
             else:
                 p_value = compute_p_value(t_stat)
         else:
-            t_stat = 0.0
-            p_value = 1.0
+            t_stat = np.nan
+            p_value = np.nan
 
         # Confidence interval
         conf_int = compute_confidence_interval(att, se, self.alpha)
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..f6869bf 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -598,7 +598,7 @@ class TripleDifference:
             )
 
         # Compute inference
-        t_stat = att / se if se > 0 else 0.0
+        t_stat = att / se if se > 0 else np.nan
         df = n_obs - 8  # Approximate df (8 cell means)
         if covariates:
             df -= len(covariates)
-- 
2.43.0


From 602652d8baca467ca1cf15ed8fa3f8c28ce2afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 09/65] fix: do not read the SDID bootstrap distribution as a
 null distribution

---
 diff_diff/synthetic_did.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index de6a3d0..b6b3cd9 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,8 +328,9 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Use placebo distribution for p-value if available. Bootstrap
+            # replicates are centred on the estimate, not on the null.
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
-- 
2.43.0


From e86fd0764f5089513abf957a2fd1bf2e13c59a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 10/65] fix: resample rows by position in the Sun-Abraham
 bootstrap

---
 diff_diff/sun_abraham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index ae6f457..b50217e 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1008,7 +1008,7 @@ class SunAbraham:
             # Create bootstrap sample efficiently
             # Build index array for all selected units
             boot_indices = np.concatenate([
-                df.index[df[unit] == u].values for u in boot_units
+                np.flatnonzero(df[unit] == u) for u in boot_units
             ])
             df_b = df.iloc[boot_indices].copy()
 
-- 
2.43.0


From 9cc79405211f1e78f6b48cded9626a8748afbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 11/65] fix: IPW standard errors of ATT(g,t) from the variance
 of the weighted mean

---
 diff_diff/staggered.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 5e61d91..eb34ae7 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -915,7 +915,6 @@ class CallawaySantAnna(
         """
         n_t = len(treated_change)
         n_c = len(control_change)
-        n_total = n_treated + n_control
 
         if X_treated is not None and X_control is not None and X_treated.shape[1] > 0:
             # Covariate-adjusted IPW estimation
@@ -957,7 +956,7 @@ class CallawaySantAnna(
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
 
             # Variance of weighted control mean
-            weighted_var_c = np.sum(weights_control * (control_change - np.sum(weights_control * control_change)) ** 2)
+            weighted_var_c = np.sum((weights_control * (control_change - np.sum(weights_control * control_change))) ** 2)
 
             se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
 
@@ -967,15 +966,13 @@ class CallawaySantAnna(
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Unconditional IPW (reduces to difference in means)
-            p_treat = n_treated / n_total  # unconditional propensity score
-
             att = np.mean(treated_change) - np.mean(control_change)
 
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
             var_c = np.var(control_change, ddof=1) if n_c > 1 else 0.0
 
-            # Adjusted variance for IPW
-            se = np.sqrt(var_t / n_t + var_c * (1 - p_treat) / (n_c * p_treat)) if (n_t > 0 and n_c > 0 and p_treat > 0) else 0.0
+            # With a constant propensity score this is a difference in means
+            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
 
             # Influence function (for aggregation)
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-- 
2.43.0


From 3e8af45495c20ed16b79d6391da68b46333b0a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 12/65] fix: predict with the estimable coefficients when
 covariates are rank deficient

---
 diff_diff/staggered.py   | 3 +++
 diff_diff/triple_diff.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index eb34ae7..dae9027 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -143,6 +143,9 @@ def _linear_regression(
         rank_deficient_action=rank_deficient_action,
     )
 
+    # Columns dropped for rank deficiency do not contribute to predictions
+    beta = np.where(np.isnan(beta), 0.0, beta)
+
     return beta, residuals
 
 
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index f6869bf..540ec0a 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -365,6 +365,9 @@ def _linear_regression(
         rank_deficient_action=rank_deficient_action,
     )
 
+    # Columns dropped for rank deficiency do not contribute to predictions
+    beta = np.where(np.isnan(beta), 0.0, beta)
+
     # Compute R-squared
     ss_res = np.sum(residuals**2)
     ss_tot = np.sum((y - np.mean(y)) ** 2)
-- 
2.43.0


From b88731b872e94e5a12470c200ffe6811038d3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 13/65] fix: solve a design of zero columns without an
 IndexError

---
 diff_diff/linalg.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 48ad8f4..9a3bf36 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -689,15 +689,19 @@ def _solve_ols_numpy(
         # else: "silent" - no warning
 
         # Extract kept columns for the reduced solve
-        kept_cols = np.array([i for i in range(k) if i not in dropped_cols])
+        kept_cols = np.array([i for i in range(k) if i not in dropped_cols], dtype=int)
         X_reduced = X[:, kept_cols]
 
         # Solve the reduced system (now full-rank)
         # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
-        scale = _column_scale(X_reduced)
-        coefficients_reduced = scipy_lstsq(
-            X_reduced / scale, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
-        )[0] / scale
+        if len(kept_cols) > 0:
+            scale = _column_scale(X_reduced)
+            coefficients_reduced = scipy_lstsq(
+                X_reduced / scale, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
+            )[0] / scale
+        else:
+            # Nothing but zero columns
+            coefficients_reduced = np.zeros(0)
 
         # Expand coefficients to full size with NaN for dropped columns
         coefficients = _expand_coefficients_with_nan(coefficients_reduced, k, kept_cols)
-- 
2.43.0


From 9f3f8ec3b265fab537045b2cc3d93b0acf20eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 14/65] fix: within_transform leaves exact zeros for absorbed
 variables, whatever the units

---
 diff_diff/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index a705c32..141325c 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1477,7 +1477,8 @@ def within_transform(
         # A single pass is exact for balanced panels only. Otherwise alternate
         # the unit and time projections until neither leaves a remainder.
         resid = demeaned.to_numpy(dtype=float, copy=True)
-        tol = 1e-12 * max(1.0, float(np.max(np.abs(data[var].to_numpy(dtype=float)))))
+        size = float(np.max(np.abs(data[var].to_numpy(dtype=float)), initial=0.0))
+        tol = 1e-13 * size
         n_iter = 0
         while n_iter < 10000:
             unit_rem = np.bincount(unit_codes, weights=resid) / unit_counts
@@ -1487,7 +1488,12 @@ def within_transform(
             resid -= unit_rem[unit_codes]
             resid -= (np.bincount(time_codes, weights=resid) / time_counts)[time_codes]
             n_iter += 1
-        return demeaned if n_iter == 0 else pd.Series(resid, index=data.index)
+        if n_iter > 0:
+            demeaned = pd.Series(resid, index=data.index)
+        # A variable the effects absorb completely leaves rounding noise only
+        if np.max(np.abs(resid), initial=0.0) <= 1e-12 * size:
+            demeaned = demeaned * 0.0
+        return demeaned
 
     if inplace:
         # Modify columns in place
-- 
2.43.0


From b8bed454929e90f04468e2b3d8347c3435225fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 15/65] fix: exact Goodman-Bacon weights reproduce the TWFE
 estimate

---
 diff_diff/bacon.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..5c36614 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -611,7 +611,6 @@ class BaconDecomposition:
         of the treatment indicator in each 2x2 comparison window.
         """
         n_total_obs = len(df)
-        n_total_units = df[unit].nunique()
 
         for comp in comparisons:
             # Get data for this specific comparison
@@ -682,14 +681,12 @@ class BaconDecomposition:
             # D = 0 for all periods for control units in this window
             D_k = T_post / T_window  # proportion treated for treated group
 
-            # Within-comparison variance of treatment
-            # Var(D) = n_k/(n_k+n_l) * D_k * (1-D_k) for the 2x2
-            var_D_22 = n_k_share * D_k * (1 - D_k)
+            # Variance of D net of unit and time effects within the 2x2:
+            # n_k/(n_k+n_l) * n_l/(n_k+n_l) * D_k * (1-D_k)
+            var_D_22 = n_k_share * (1 - n_k_share) * D_k * (1 - D_k)
 
-            # Exact weight: proportional to sample share * variance
-            # Scale by (n_k + n_l) / n_total_units to account for subsample
-            unit_share = (n_k + n_l) / n_total_units
-            comp.weight = sample_share * var_D_22 * unit_share
+            # Exact weight (Theorem 1): squared sample share * variance
+            comp.weight = sample_share ** 2 * var_D_22
 
     def _compute_treated_vs_never(
         self,
-- 
2.43.0


From 9fb2aba3cbccb8a15249f605ea6a38dd9a4c2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 16/65] fix: skip Goodman-Bacon comparisons with the never
 treated whose cells are empty

---
 diff_diff/bacon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 5c36614..cfa59d1 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -734,6 +734,10 @@ class BaconDecomposition:
         never_pre = df_never[df_never[time].isin(pre_periods)][outcome].mean()
         never_post = df_never[df_never[time].isin(post_periods)][outcome].mean()
 
+        # Skip if any cell mean is NaN (empty cell)
+        if np.isnan([treated_pre, treated_post, never_pre, never_post]).any():
+            return None
+
         estimate = (treated_post - treated_pre) - (never_post - never_pre)
 
         # Calculate weight components
-- 
2.43.0


From 39354cd6389472a2eb0f6b4389e174edc0f25064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 17/65] fix: reject unbalanced panels in SyntheticDiD instead
 of returning NaN

---
 diff_diff/synthetic_did.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index b6b3cd9..8cfbc44 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -270,6 +270,16 @@ class SyntheticDiD(DifferenceInDifferences):
                 pre_periods, post_periods, treated_units, control_units
             )
 
+        # The estimator needs every unit in every period
+        if not all(
+            np.isfinite(Y).all()
+            for Y in (Y_pre_control, Y_post_control, Y_pre_treated, Y_post_treated)
+        ):
+            raise ValueError(
+                "SyntheticDiD requires a balanced panel with a finite outcome for "
+                "every unit in every period."
+            )
+
         # Compute unit weights (synthetic control weights)
         # Average treated outcomes across treated units
         Y_pre_treated_mean = np.mean(Y_pre_treated, axis=1)
-- 
2.43.0


From acbb01c07cd4d3132c82f582b7d4edae22e2a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 18/65] fix: triple difference: doubly robust estimate,
 location-free and clustered standard errors

---
 diff_diff/triple_diff.py | 223 +++++++++++++++++----------------------
 1 file changed, 96 insertions(+), 127 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 540ec0a..484116b 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -576,6 +576,8 @@ class TripleDifference:
             if np.any(np.isnan(X)):
                 raise ValueError("Covariates contain missing values")
 
+        cluster_ids = data[self.cluster].values if self.cluster is not None else None
+
         # Count observations in each cell
         n_obs = len(y)
         n_treated_eligible = int(np.sum((G == 1) & (P == 1)))
@@ -589,15 +591,15 @@ class TripleDifference:
         # Estimate ATT based on method
         if self.estimation_method == "reg":
             att, se, r_squared, pscore_stats = self._regression_adjustment(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         elif self.estimation_method == "ipw":
             att, se, r_squared, pscore_stats = self._ipw_estimation(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         else:  # doubly robust
             att, se, r_squared, pscore_stats = self._doubly_robust(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
 
         # Compute inference
@@ -612,7 +614,7 @@ class TripleDifference:
 
         # Get number of clusters if clustering
         n_clusters = None
-        if self.cluster is not None:
+        if cluster_ids is not None:
             n_clusters = data[self.cluster].nunique()
 
         # Create results object
@@ -726,6 +728,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using regression adjustment.
@@ -767,7 +770,7 @@ class TripleDifference:
             robust=self.robust,
             alpha=self.alpha,
             rank_deficient_action=self.rank_deficient_action,
-        ).fit(design_matrix, y)
+        ).fit(design_matrix, y, cluster_ids=cluster_ids)
 
         # ATT is the coefficient on G*P*T (index 7)
         inference = reg.get_inference(7)
@@ -784,6 +787,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using inverse probability weighting.
@@ -917,7 +921,7 @@ class TripleDifference:
         # For simplicity, use influence function approach
         se = self._compute_ipw_se(
             y, G, P, T, cell_1, cell_2, cell_3, cell_4,
-            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att
+            p_cell_1, p_cell_2, p_cell_3, p_cell_4, cluster_ids
         )
 
         return att, se, None, pscore_stats
@@ -929,6 +933,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using doubly robust estimation.
@@ -947,28 +952,26 @@ class TripleDifference:
 
         # Step 1: Outcome regression for each cell-time combination
         # Predict E[Y|X,T] for each cell
+        mu_hat: Dict[Tuple[int, int], np.ndarray] = {}
         if X is not None and X.shape[1] > 0:
-            # Fit outcome models for each cell
+            # Fit outcome models for each cell and predict for every observation
             mu_fitted = np.zeros(n)
 
-            for cell_mask, cell_name in [
-                (cell_1, "cell_1"), (cell_2, "cell_2"),
-                (cell_3, "cell_3"), (cell_4, "cell_4")
-            ]:
+            for cell_idx, cell_mask in enumerate([cell_1, cell_2, cell_3, cell_4]):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
+                    mu = np.full(n, np.mean(y[mask]))
                     if np.sum(mask) > 1:
-                        X_cell = np.column_stack([X[mask], T[mask]])
                         try:
-                            _, fitted, _ = _linear_regression(
-                                X_cell, y[mask],
+                            beta, fitted, _ = _linear_regression(
+                                X[mask], y[mask],
                                 rank_deficient_action=self.rank_deficient_action,
                             )
-                            mu_fitted[mask] = fitted
+                            mu = np.column_stack([np.ones(n), X]) @ beta
                         except Exception:
-                            mu_fitted[mask] = np.mean(y[mask])
-                    elif np.sum(mask) == 1:
-                        mu_fitted[mask] = y[mask]
+                            pass
+                    mu_hat[cell_idx, t_val] = mu
+                    mu_fitted[mask] = mu[mask]
 
             # Propensity scores
             try:
@@ -998,11 +1001,11 @@ class TripleDifference:
         else:
             # No covariates: use cell means as predictions
             mu_fitted = np.zeros(n)
-            for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
+            for cell_idx, cell_mask in enumerate([cell_1, cell_2, cell_3, cell_4]):
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 0:
-                        mu_fitted[mask] = np.mean(y[mask])
+                    mu_hat[cell_idx, t_val] = np.full(n, np.mean(y[mask]))
+                    mu_fitted[mask] = mu_hat[cell_idx, t_val][mask]
 
             # Unconditional probabilities
             p_cell_1 = np.full(n, np.mean(cell_1))
@@ -1018,83 +1021,32 @@ class TripleDifference:
         p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
 
         # Step 2: Doubly robust estimator
-        # For each cell, compute the augmented IPW term:
-        # (Y - mu(X)) * weight + mu(X)
-
-        pre_mask = T == 0
-        post_mask = T == 1
-
-        # Influence function components for each observation
-        n_1 = np.sum(cell_1)
-        p_ref = n_1 / n
-
-        # Cell 1 (G=1, P=1) - effectively treated
-        inf_11 = np.zeros(n)
-        inf_11[cell_1] = (y[cell_1] - mu_fitted[cell_1]) / p_ref
-        # Add outcome model contribution
-        inf_11 += mu_fitted * cell_1.astype(float) / p_ref
-
-        # Cell 2 (G=1, P=0)
-        w_10 = cell_2.astype(float) * (p_cell_1 / p_cell_2)
-        inf_10 = w_10 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 2 (vectorized)
-        inf_10[cell_2] += mu_fitted[cell_2] * (p_cell_1[cell_2] / p_cell_2[cell_2]) / p_ref
-
-        # Cell 3 (G=0, P=1)
-        w_01 = cell_3.astype(float) * (p_cell_1 / p_cell_3)
-        inf_01 = w_01 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 3 (vectorized)
-        inf_01[cell_3] += mu_fitted[cell_3] * (p_cell_1[cell_3] / p_cell_3[cell_3]) / p_ref
-
-        # Cell 4 (G=0, P=0)
-        w_00 = cell_4.astype(float) * (p_cell_1 / p_cell_4)
-        inf_00 = w_00 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 4 (vectorized)
-        inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
-
-        # Compute cell-time means using DR formula
-        def dr_mean(inf_vals, t_mask):
-            return np.mean(inf_vals[t_mask])
-
-        y_11_pre = dr_mean(inf_11, pre_mask)
-        y_11_post = dr_mean(inf_11, post_mask)
-        y_10_pre = dr_mean(inf_10, pre_mask)
-        y_10_post = dr_mean(inf_10, post_mask)
-        y_01_pre = dr_mean(inf_01, pre_mask)
-        y_01_post = dr_mean(inf_01, post_mask)
-        y_00_pre = dr_mean(inf_00, pre_mask)
-        y_00_post = dr_mean(inf_00, post_mask)
-
-        # DDD estimate
-        att = (
-            (y_11_post - y_11_pre)
-            - (y_10_post - y_10_pre)
-            - (y_01_post - y_01_pre)
-            + (y_00_post - y_00_pre)
-        )
-
-        # Standard error computation
-        # Use the simpler variance formula for the DDD estimator
-        # Var(DDD) ≈ sum of variances of cell means / cell_sizes
-
-        # Compute variances within each cell-time combination
-        def cell_var(cell_mask, t_mask, y_vals):
-            mask = cell_mask & t_mask
-            if np.sum(mask) > 1:
-                return np.var(y_vals[mask], ddof=1), np.sum(mask)
-            return 0.0, max(1, np.sum(mask))
-
-        # Variance components for each of the 8 cells
-        var_components = []
-        for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-            for t_mask in [pre_mask, post_mask]:
-                v, n_cell = cell_var(cell_mask, t_mask, y)
-                if n_cell > 0:
-                    var_components.append(v / n_cell)
-
-        # Total variance is sum of components (assuming independence)
-        total_var = sum(var_components)
-        se = np.sqrt(total_var)
+        # For each cell and period, the outcome model averaged over the
+        # effectively treated (G=1, P=1) plus the reweighted mean residual
+        att = 0.0
+        inf_func = np.zeros(n)
+        cells = [
+            (cell_1, np.ones(n), 1.0),
+            (cell_2, p_cell_1 / p_cell_2, -1.0),
+            (cell_3, p_cell_1 / p_cell_3, -1.0),
+            (cell_4, p_cell_1 / p_cell_4, 1.0),
+        ]
+        for cell_idx, (cell_mask, weights, cell_sign) in enumerate(cells):
+            for t_val, t_sign in [(0, -1.0), (1, 1.0)]:
+                sign = cell_sign * t_sign
+                ref = cell_1 & (T == t_val)
+                mask = cell_mask & (T == t_val)
+                mu = mu_hat[cell_idx, t_val]
+                mu_ref = np.mean(mu[ref])
+                w = weights[mask] / np.sum(weights[mask])
+                resid = y[mask] - mu[mask]
+                resid_mean = np.sum(w * resid)
+
+                att += sign * (mu_ref + resid_mean)
+                inf_func[ref] += sign * (mu[ref] - mu_ref) / np.sum(ref)
+                inf_func[mask] += sign * w * (resid - resid_mean)
+
+        se = self._se_from_influence(inf_func, G, P, T, cluster_ids)
 
         # R-squared from outcome regression
         if X is not None:
@@ -1142,40 +1094,57 @@ class TripleDifference:
         p_cell_2: np.ndarray,
         p_cell_3: np.ndarray,
         p_cell_4: np.ndarray,
-        att: float,
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> float:
         """Compute standard error for IPW estimator using influence function."""
-        n = len(y)
-        post_mask = T == 1
-
-        # Influence function for IPW estimator (vectorized)
-        inf_func = np.zeros(n)
-
-        n_ref = np.sum(cell_1)
-        p_ref = n_ref / n
-
-        # Sign: +1 for post, -1 for pre
-        sign = np.where(post_mask, 1.0, -1.0)
-
-        # Cell 1 (G=1, P=1): sign * (y - att) / p_ref
-        inf_func[cell_1] = sign[cell_1] * (y[cell_1] - att) / p_ref
-
-        # Cell 2 (G=1, P=0): -sign * y * (p_cell_1 / p_cell_2) / p_ref
-        w_2 = p_cell_1[cell_2] / p_cell_2[cell_2]
-        inf_func[cell_2] = -sign[cell_2] * y[cell_2] * w_2 / p_ref
-
-        # Cell 3 (G=0, P=1): -sign * y * (p_cell_1 / p_cell_3) / p_ref
-        w_3 = p_cell_1[cell_3] / p_cell_3[cell_3]
-        inf_func[cell_3] = -sign[cell_3] * y[cell_3] * w_3 / p_ref
+        # Influence of each observation on its reweighted cell-period mean
+        inf_func = np.zeros(len(y))
+        cells = [
+            (cell_1, np.ones(len(y)), 1.0),
+            (cell_2, p_cell_1 / p_cell_2, -1.0),
+            (cell_3, p_cell_1 / p_cell_3, -1.0),
+            (cell_4, p_cell_1 / p_cell_4, 1.0),
+        ]
+        for cell_mask, weights, cell_sign in cells:
+            for t_val, t_sign in [(0, -1.0), (1, 1.0)]:
+                mask = cell_mask & (T == t_val)
+                w = weights[mask] / np.sum(weights[mask])
+                resid = y[mask] - np.sum(w * y[mask])
+                inf_func[mask] = cell_sign * t_sign * w * resid
 
-        # Cell 4 (G=0, P=0): sign * y * (p_cell_1 / p_cell_4) / p_ref
-        w_4 = p_cell_1[cell_4] / p_cell_4[cell_4]
-        inf_func[cell_4] = sign[cell_4] * y[cell_4] * w_4 / p_ref
+        return self._se_from_influence(inf_func, G, P, T, cluster_ids)
 
-        var_inf = np.var(inf_func, ddof=1)
-        se = np.sqrt(var_inf / n)
+    def _se_from_influence(
+        self,
+        inf_func: np.ndarray,
+        G: np.ndarray,
+        P: np.ndarray,
+        T: np.ndarray,
+        cluster_ids: Optional[np.ndarray] = None,
+    ) -> float:
+        """
+        Standard error from the influence of each observation on the estimate.
 
-        return se
+        Without clusters the cell-period samples are independent and the
+        variance is the sum of their variances.
+        """
+        if cluster_ids is not None:
+            sums = pd.Series(inf_func).groupby(np.asarray(cluster_ids)).sum().values
+            n_clusters = len(sums)
+            if n_clusters < 2:
+                raise ValueError(
+                    f"Need at least 2 clusters for cluster-robust SEs, got {n_clusters}"
+                )
+            return float(np.sqrt(n_clusters / (n_clusters - 1) * np.sum(sums**2)))
+
+        total_var = 0.0
+        for g in [0, 1]:
+            for p in [0, 1]:
+                for t in [0, 1]:
+                    inf_cell = inf_func[(G == g) & (P == p) & (T == t)]
+                    if len(inf_cell) > 1:
+                        total_var += len(inf_cell) * np.var(inf_cell, ddof=1)
+        return float(np.sqrt(total_var))
 
     def get_params(self) -> Dict[str, Any]:
         """
-- 
2.43.0


From e0002cc846cedee2a07dcec7f225c419959ef0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 19/65] fix: TROP confidence interval from the t distribution
 of its p-value

---
 diff_diff/trop.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..5344547 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1511,8 +1511,9 @@ class TROP:
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            df_inference = max(1, n_treated_obs - 1)
+            p_value = 2 * stats.t.sf(abs(t_stat), df=df_inference)
+            conf_int = compute_confidence_interval(att, se, self.alpha, df=df_inference)
         else:
             t_stat = np.nan
             p_value = np.nan
@@ -2188,8 +2189,9 @@ class TROP:
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            df_inference = max(1, n_treated_obs - 1)
+            p_value = 2 * stats.t.sf(abs(t_stat), df=df_inference)
+            conf_int = compute_confidence_interval(att, se, self.alpha, df=df_inference)
         else:
             # When SE is undefined/zero, ALL inference fields should be NaN
             t_stat = np.nan
-- 
2.43.0


From 9fe29069288259760a87048247f15ef061146a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 20/65] fix: TROP resampling variances weight the resampled
 panel, not the original one

---
 diff_diff/trop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 5344547..78446cf 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2289,8 +2289,13 @@ class TROP:
         np.ndarray
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
-        # Use pre-computed structures when available
-        if self._precomputed is not None:
+        # Use pre-computed structures when they describe this very sample (the
+        # variance estimators pass resampled or reduced panels)
+        if (
+            self._precomputed is not None
+            and Y is self._precomputed["Y"]
+            and D is self._precomputed["D"]
+        ):
             # Time weights from pre-computed time distance matrix
             # time_dist_matrix[t, s] = |t - s|
             time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-- 
2.43.0


From 6cb3b44c14b059584fbe9c6213208283ce2be816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 21/65] fix: TROP reports the LOOCV score of the selected
 penalties when one is infinite

---
 diff_diff/trop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 78446cf..76274c8 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2078,7 +2078,10 @@ class TROP:
             try:
                 best_score = self._loocv_score_obs_specific(
                     Y, D, control_mask, control_unit_idx,
-                    lambda_time, lambda_unit, lambda_nn,
+                    # infinite penalties mean "disabled" (see _univariate_loocv_search)
+                    0.0 if np.isinf(lambda_time) else lambda_time,
+                    0.0 if np.isinf(lambda_unit) else lambda_unit,
+                    1e10 if np.isinf(lambda_nn) else lambda_nn,
                     n_units, n_periods
                 )
                 # Only accept finite scores - infinite means all fits failed
-- 
2.43.0


From c366e4f00968a44715bd5acfffc06e9fd9e7fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 22/65] fix: HonestDiD takes the post-period block of a fitted
 model's covariance

---
 diff_diff/honest_did.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..ff65806 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -565,6 +565,17 @@ def _extract_event_study_params(
         # Get vcov if available
         if results.vcov is not None:
             sigma = results.vcov
+            # A fitted model carries the covariance of all its coefficients:
+            # keep the block of the post-period effects
+            names = list(results.coefficients or {})
+            if len(names) == sigma.shape[0]:
+                positions = [
+                    [i for i, name in enumerate(names) if name.endswith(f":period_{period}")]
+                    for period in post_periods
+                ]
+                if all(len(found) == 1 for found in positions):
+                    idx = [found[0] for found in positions]
+                    sigma = sigma[np.ix_(idx, idx)]
         else:
             # Construct diagonal vcov from SEs
             sigma = np.diag(np.array(ses) ** 2)
-- 
2.43.0


From c3e403452f6647a52aaa810277d5fcadf1e7b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 23/65] fix: HonestDiD rejects a negative M given to fit, as at
 construction

---
 diff_diff/honest_did.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index ff65806..c2c339b 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1075,6 +1075,8 @@ class HonestDiD:
             Results containing bounds and robust confidence intervals.
         """
         M = M if M is not None else self.M
+        if M < 0:
+            raise ValueError(f"M must be non-negative, got M={M}")
 
         # Extract event study parameters
         (beta_hat, sigma, num_pre, num_post,
-- 
2.43.0


From 5ea70704afe3541a98450aac4f8862a4c2c31029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 24/65] fix: HonestDiD: an undefined interval is not
 significant, a zero breakdown is shown

---
 diff_diff/honest_did.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index c2c339b..c246cc4 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -197,7 +197,7 @@ class HonestDiDResults:
     )
 
     def __repr__(self) -> str:
-        sig = "" if self.ci_lb <= 0 <= self.ci_ub else "*"
+        sig = self.significance_stars
         return (
             f"HonestDiDResults(bounds=[{self.lb:.4f}, {self.ub:.4f}], "
             f"CI=[{self.ci_lb:.4f}, {self.ci_ub:.4f}]{sig}, "
@@ -207,7 +207,7 @@ class HonestDiDResults:
     @property
     def is_significant(self) -> bool:
         """Check if CI excludes zero (effect is robust to violations)."""
-        return not (self.ci_lb <= 0 <= self.ci_ub)
+        return bool(self.ci_lb > 0 or self.ci_ub < 0)
 
     @property
     def significance_stars(self) -> str:
@@ -377,7 +377,7 @@ class SensitivityResults:
     alpha: float = 0.05
 
     def __repr__(self) -> str:
-        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M else "None"
+        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M is not None else "None"
         return (
             f"SensitivityResults(n_M={len(self.M_values)}, "
             f"breakdown_M={breakdown_str})"
@@ -443,7 +443,7 @@ class SensitivityResults:
                 "ub": ub,
                 "ci_lb": ci_lb,
                 "ci_ub": ci_ub,
-                "is_significant": not (ci_lb <= 0 <= ci_ub),
+                "is_significant": bool(ci_lb > 0 or ci_ub < 0),
             })
         return pd.DataFrame(rows)
 
-- 
2.43.0


From 74ab1450239c48bc31c6efcd850288db5176e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 25/65] fix: HonestDiD breakdown on grids that do not start at
 zero or are unsorted

---
 diff_diff/honest_did.py | 61 ++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index c246cc4..9476cb0 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1359,36 +1359,27 @@ class HonestDiD:
 
         Uses binary search for precision.
         """
-        # Check if any CI includes zero
-        includes_zero = [ci_lb <= 0 <= ci_ub for ci_lb, ci_ub in ci_list]
-
-        if not any(includes_zero):
-            # Always significant - no breakdown
-            return None
-
-        if all(includes_zero):
-            # Never significant - breakdown at 0
-            return 0.0
-
-        # Find first transition point
-        for i, (inc, M) in enumerate(zip(includes_zero, M_values)):
-            if inc and (i == 0 or not includes_zero[i - 1]):
-                # Binary search between M_values[i-1] and M_values[i]
-                if i == 0:
-                    return 0.0
-
-                lo, hi = M_values[i - 1], M_values[i]
-
-                for _ in range(20):  # 20 iterations for precision
-                    mid = (lo + hi) / 2
-                    result = self.fit(results, M=mid)
-                    if result.ci_lb <= 0 <= result.ci_ub:
-                        hi = mid
-                    else:
-                        lo = mid
-
-                return (lo + hi) / 2
-
+        # Walk the grid upwards from M = 0; a CI that does not exclude zero
+        # (an undefined one included) ends the search
+        lo = 0.0
+        for M, (ci_lb, ci_ub) in sorted(zip(M_values, ci_list), key=lambda item: item[0]):
+            if ci_lb > 0 or ci_ub < 0:
+                lo = M
+                continue
+            if lo == 0.0 and (M == 0 or not self.fit(results, M=0).is_significant):
+                return 0.0
+
+            # Binary search between the last M that excludes zero and this one
+            hi = M
+            for _ in range(20):  # 20 iterations for precision
+                mid = (lo + hi) / 2
+                if self.fit(results, M=mid).is_significant:
+                    lo = mid
+                else:
+                    hi = mid
+            return (lo + hi) / 2
+
+        # Always significant - no breakdown
         return None
 
     def breakdown_value(
@@ -1416,12 +1407,12 @@ class HonestDiD:
         """
         # Check at M=0
         result_0 = self.fit(results, M=0)
-        if result_0.ci_lb <= 0 <= result_0.ci_ub:
+        if not result_0.is_significant:
             return 0.0
 
         # Check if significant even for large M
         result_large = self.fit(results, M=10)
-        if not (result_large.ci_lb <= 0 <= result_large.ci_ub):
+        if result_large.is_significant:
             return None  # Always significant
 
         # Binary search
@@ -1430,10 +1421,10 @@ class HonestDiD:
         while hi - lo > tol:
             mid = (lo + hi) / 2
             result = self.fit(results, M=mid)
-            if result.ci_lb <= 0 <= result.ci_ub:
-                hi = mid
-            else:
+            if result.is_significant:
                 lo = mid
+            else:
+                hi = mid
 
         return (lo + hi) / 2
 
-- 
2.43.0


From 4b70fcc02c53d095320913347ac5a55c8ea25dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 26/65] fix: HonestDiD raises instead of reporting a zero
 effect when no post effect is estimated

---
 diff_diff/honest_did.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 9476cb0..5976e62 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1106,6 +1106,10 @@ class HonestDiD:
 
         # Update num_post to match actual data
         num_post = len(beta_post)
+        if num_post == 0:
+            raise ValueError(
+                "No post-treatment effects with a finite standard error found in results."
+            )
 
         # Set up weighting vector
         if self.l_vec is None:
-- 
2.43.0


From b3bda9fff94ea1dbd82bf15226a8152d067ff1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 27/65] fix: HonestDiD relative-magnitude bounds for weights
 whose absolute values do not sum to one

---
 diff_diff/honest_did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 5976e62..62bf14d 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -940,7 +940,7 @@ def _compute_clf_ci(
     theta = np.dot(l_vec, beta_post)
     se = np.sqrt(l_vec @ sigma_post @ l_vec)
 
-    bound = Mbar * max_pre_violation
+    bound = Mbar * max_pre_violation * np.sum(np.abs(l_vec))
 
     # Simple bounds: theta +/- bound
     lb = theta - bound
-- 
2.43.0


From d08ee2f1a88287f835b1c94778241f5968759d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 28/65] fix: PreTrendsPower finds pre-period coefficients
 whatever the treatment column is called

---
 diff_diff/pretrends.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..0e3892c 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -570,9 +570,16 @@ class PreTrendsPower:
             # (excludes the reference period which is omitted from estimation)
             if hasattr(results, 'coefficients') and results.coefficients:
                 # Find which pre-periods have estimated coefficients
+                # (the interaction is named after the treatment column)
+                keys = {
+                    p: key
+                    for p in all_pre_periods
+                    for key in results.coefficients
+                    if key.endswith(f":period_{p}")
+                }
                 estimated_pre_periods = [
                     p for p in all_pre_periods
-                    if f"treated:period_{p}" in results.coefficients
+                    if p in keys and np.isfinite(results.coefficients[keys[p]])
                 ]
 
                 if len(estimated_pre_periods) == 0:
@@ -586,7 +593,7 @@ class PreTrendsPower:
 
                 # Extract effects for estimated periods only
                 effects = np.array([
-                    results.coefficients[f"treated:period_{p}"]
+                    results.coefficients[keys[p]]
                     for p in estimated_pre_periods
                 ])
 
@@ -605,9 +612,8 @@ class PreTrendsPower:
                     # Get ordered list of all coefficient keys
                     coef_keys = list(results.coefficients.keys())
                     pre_indices = [
-                        coef_keys.index(f"treated:period_{p}")
+                        coef_keys.index(keys[p])
                         for p in estimated_pre_periods
-                        if f"treated:period_{p}" in coef_keys
                     ]
                     if len(pre_indices) == n_pre and results.vcov.shape[0] > max(pre_indices):
                         vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
-- 
2.43.0


From aa66a625166ceba1561cd0ef8fee3de98988424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 29/65] fix: PreTrendsPower.set_params validates and converts
 as the constructor does

---
 diff_diff/pretrends.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 0e3892c..d9a67e8 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -472,13 +472,14 @@ class PreTrendsPower:
 
     def set_params(self, **params) -> "PreTrendsPower":
         """Set parameters for this estimator."""
+        values = self.get_params()
         for key, value in params.items():
-            if key == "power":
-                self.target_power = value
-            elif hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            key = "power" if key == "target_power" else key
+            if key not in values:
                 raise ValueError(f"Invalid parameter: {key}")
+            values[key] = value
+        # Validate and convert exactly as at construction
+        self.__init__(**values)
         return self
 
     def _get_violation_weights(self, n_pre: int) -> np.ndarray:
-- 
2.43.0


From 1f6d5b6121181594afe4c629550e2b7ed48d1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 30/65] fix: PreTrendsPowerResults.power_at uses the violation
 that was fitted when it is custom

---
 diff_diff/pretrends.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9a67e8..386777f 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -89,6 +89,7 @@ class PreTrendsPowerResults:
     pre_period_ses: np.ndarray = field(repr=False)
     vcov: np.ndarray = field(repr=False)
     original_results: Optional[Any] = field(default=None, repr=False)
+    violation_weights: Optional[np.ndarray] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         return (
@@ -225,7 +226,9 @@ class PreTrendsPowerResults:
 
         # Reconstruct violation weights based on violation type
         # Must match PreTrendsPower._get_violation_weights() exactly
-        if self.violation_type == "linear":
+        if self.violation_weights is not None:
+            weights = self.violation_weights
+        elif self.violation_type == "linear":
             # Linear trend: weights decrease toward treatment
             # [n-1, n-2, ..., 1, 0] for n pre-periods
             weights = np.arange(-n_pre + 1, 1, dtype=float)
@@ -914,6 +917,7 @@ class PreTrendsPower:
             pre_period_ses=ses,
             vcov=vcov,
             original_results=results,
+            violation_weights=weights,
         )
 
     def power_at(
-- 
2.43.0


From 788990201a984a3a51ff1eff6b059124e1e1252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 31/65] fix: PreTrendsPower minimum detectable violation is
 zero when the target does not exceed alpha

---
 diff_diff/pretrends.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 386777f..f09089a 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -809,6 +809,10 @@ class PreTrendsPower:
         # Critical value
         critical_value = stats.chi2.ppf(1 - self.alpha, df=n_pre)
 
+        # The test rejects with probability alpha without any violation
+        if self.target_power <= self.alpha:
+            return 0.0
+
         # Find non-centrality parameter for target power
         # We need: P(ncx2 > critical_value) = target_power
         # Use inverse: find lambda such that ncx2.cdf(cv, df, lambda) = 1 - target_power
-- 
2.43.0


From a99b14d8f989803fd5df74ce1120ed2889407976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 32/65] fix: simulate_power reads the overall effect of
 CallawaySantAnna results

---
 diff_diff/power.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..8f1923b 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1126,10 +1126,12 @@ def simulate_power(
                     )
 
                 # Extract results
-                att = result.att if hasattr(result, 'att') else result.avg_att
-                se = result.se if hasattr(result, 'se') else result.avg_se
-                p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
-                ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
+                # (named att, avg_att or overall_att depending on the estimator)
+                prefix = next(p for p in ('', 'avg_', 'overall_') if hasattr(result, f'{p}att'))
+                att = getattr(result, f'{prefix}att')
+                se = getattr(result, f'{prefix}se')
+                p_val = getattr(result, f'{prefix}p_value')
+                ci = getattr(result, f'{prefix}conf_int')
 
                 estimates.append(att)
                 ses.append(se)
-- 
2.43.0


From 13de80a8524486d9949c0dde38a2ef3f5d31a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 33/65] fix: required sample size never exceeds the documented
 maximum

---
 diff_diff/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 8f1923b..51711dd 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -689,7 +689,7 @@ class PowerAnalysis:
             )
 
         # Handle infinity case (extremely small effect)
-        if np.isinf(n_total):
+        if n_total >= MAX_SAMPLE_SIZE:
             return MAX_SAMPLE_SIZE
 
         return max(4, int(np.ceil(n_total)))  # At least 4 units
-- 
2.43.0


From a809b33dd2f96157eab26bb9537e227dc96b4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 34/65] fix: panel sample size inverts the panel variance
 instead of doubling it

---
 diff_diff/power.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 51711dd..4b7db87 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -681,10 +681,10 @@ class PowerAnalysis:
             design_effect = 1 + (T - 1) * rho
 
             # Var = sigma^2 * (1/n_t + 1/n_c) * design_effect / T
-            # For balanced: Var = 2 * sigma^2 / N * design_effect / T
+            #     = sigma^2 / N * (1/(p*(1-p))) * design_effect / T
 
             n_total = (
-                2 * sigma**2 * (z_alpha + z_beta)**2 * design_effect
+                sigma**2 * (z_alpha + z_beta)**2 * design_effect
                 / (effect_size**2 * treat_frac * (1 - treat_frac) * T)
             )
 
-- 
2.43.0


From b2abe2f1df1ebe9496c63800d23d234570bfffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 35/65] fix: placebo timing and group intervals use the
 requested significance level

---
 diff_diff/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 8d704ba..952f071 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -416,7 +416,7 @@ def placebo_timing_test(
     pre_data["_fake_post"] = (pre_data[time] >= fake_treatment_period).astype(int)
 
     # Fit DiD on pre-treatment data with fake post
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         pre_data,
         outcome=outcome,
@@ -508,7 +508,7 @@ def placebo_group_test(
     fake_data["_post"] = fake_data[time].isin(post_periods).astype(int)
 
     # Fit DiD
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         fake_data,
         outcome=outcome,
-- 
2.43.0


From f4d338c412125235e70c6c40794da5af667e4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 36/65] fix: permutation test reports no p-value when the
 original effect is not identified

---
 diff_diff/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 952f071..ceccc4f 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -655,6 +655,9 @@ def permutation_test(
 
     # Ensure p-value is at least 1/(n_permutations + 1)
     p_value = max(p_value, 1 / (len(valid_effects) + 1))
+    if np.isnan(original_att):
+        # No effect to compare the permuted effects with
+        p_value = np.nan
 
     # Compute SE and CI from permutation distribution
     se = np.std(valid_effects, ddof=1)
-- 
2.43.0


From 76319b21d42a8528a2d0ddcb9d69335a04e365f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 37/65] fix: parallel trends check is undetermined without
 enough pre-treatment observations

---
 diff_diff/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 141325c..06ddcf0 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -573,14 +573,14 @@ def check_parallel_trends(
         time_values = group_data[time].values
         outcome_values = group_data[outcome].values
 
+        n = len(time_values)
+        if n < 2:
+            return np.nan, np.nan
+
         # Normalize time to start at 0
         time_norm = time_values - time_values.min()
 
         # Compute slope using least squares
-        n = len(time_norm)
-        if n < 2:
-            return np.nan, np.nan
-
         mean_t = np.mean(time_norm)
         mean_y = np.mean(outcome_values)
 
@@ -591,7 +591,9 @@ def check_parallel_trends(
 
         slope = np.sum((time_norm - mean_t) * (outcome_values - mean_y)) / time_var
 
-        # Compute standard error of slope
+        # Compute standard error of slope (undefined for a line through two points)
+        if n == 2:
+            return slope, np.nan
         y_hat = mean_y + slope * (time_norm - mean_t)
         residuals = outcome_values - y_hat
         mse = np.sum(residuals ** 2) / (n - 2)
-- 
2.43.0


From ff1e4ee47e8aea256beb454de4ec2869ff017417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 38/65] fix: rank_control_units handles panels with missing
 pre-treatment observations

---
 diff_diff/prep.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..a987da1 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1004,9 +1004,14 @@ def rank_control_units(
     # Compute outcome trend scores
     # -------------------------------------------------------------------------
     # Synthetic weights (higher = better match)
-    synthetic_weights = compute_synthetic_weights(
-        Y_control, Y_treated_mean, lambda_reg=lambda_reg
-    )
+    # They need pre-periods observed for the treated mean and every control
+    complete = ~np.isnan(Y_control).any(axis=1) & ~np.isnan(Y_treated_mean)
+    if complete.any():
+        synthetic_weights = compute_synthetic_weights(
+            Y_control[complete], Y_treated_mean[complete], lambda_reg=lambda_reg
+        )
+    else:
+        synthetic_weights = np.full(len(control_candidates), np.nan)
 
     # RMSE for each control vs treated mean (use nanmean to handle missing data)
     rmse_scores = []
-- 
2.43.0


From f8a5e33c34753aa9d638bf0f8926481e0027d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 39/65] fix: rank_control_units with covariates uses the
 treated units present in the pre-treatment data

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index a987da1..f583c39 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1040,7 +1040,7 @@ def rank_control_units(
         cov_data = pre_data.groupby(unit_column)[covariates].mean()
 
         # Treated covariate profile (mean across treated units)
-        treated_cov = cov_data.loc[list(treated_set)].mean()
+        treated_cov = cov_data.loc[treated_list].mean()
 
         # Standardize covariates
         cov_mean = cov_data.mean()
-- 
2.43.0


From d8843c2eb5879c8503bad54b617297ad7251b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 40/65] fix: outcome trend of treatment candidates does not
 depend on the row order

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index f583c39..2a9233e 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1170,7 +1170,7 @@ def _suggest_treatment_candidates(
     candidate_info = []
 
     for unit in all_units:
-        unit_data = pre_data[pre_data[unit_column] == unit]
+        unit_data = pre_data[pre_data[unit_column] == unit].sort_values(time_column)
 
         if len(unit_data) == 0:
             continue
-- 
2.43.0


From f0b428074506b3447e2e8fc45863f91feff825e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 41/65] fix: a control without pre-period overlap does not void
 the ranking of the others

---
 diff_diff/prep.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 2a9233e..c6b755b 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1021,13 +1021,13 @@ def rank_control_units(
         rmse_scores.append(rmse)
 
     # Convert RMSE to similarity score (lower RMSE = higher score)
-    max_rmse = max(rmse_scores) if rmse_scores else 1.0
-    min_rmse = min(rmse_scores) if rmse_scores else 0.0
+    max_rmse = np.nanmax(rmse_scores) if rmse_scores else 1.0
+    min_rmse = np.nanmin(rmse_scores) if rmse_scores else 0.0
     rmse_range = max_rmse - min_rmse
 
     if rmse_range < 1e-10:
         # All controls have identical/similar pre-trends (includes single control case)
-        outcome_trend_scores = [1.0] * len(rmse_scores)
+        outcome_trend_scores = [np.nan if np.isnan(rmse) else 1.0 for rmse in rmse_scores]
     else:
         # Normalize so best control gets 1.0, worst gets 0.0
         outcome_trend_scores = [1 - (rmse - min_rmse) / rmse_range for rmse in rmse_scores]
-- 
2.43.0


From effc385aa51772f3af72311aed39922cc60a5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 42/65] fix: saturated designs have undefined standard errors
 instead of a division by zero

---
 diff_diff/linalg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 9a3bf36..fad95e4 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -845,6 +845,10 @@ def _compute_robust_vcov_numpy(
     n, k = X.shape
     XtX = X.T @ X
 
+    if n <= k:
+        # No residual degrees of freedom: the variance is not identified
+        return np.full((k, k), np.nan)
+
     if cluster_ids is None:
         # HC1 (heteroskedasticity-robust) standard errors
         adjustment = n / (n - k)
@@ -1200,7 +1204,7 @@ class LinearRegression:
                 # Rank-deficient: compute vcov for identified coefficients only
                 kept_cols = np.where(~nan_mask)[0]
                 X_reduced = X[:, kept_cols]
-                mse = np.sum(residuals**2) / (n - k_effective)
+                mse = np.sum(residuals**2) / (n - k_effective) if n > k_effective else np.nan
                 try:
                     vcov_reduced = np.linalg.solve(
                         X_reduced.T @ X_reduced, mse * np.eye(k_effective)
@@ -1211,7 +1215,7 @@ class LinearRegression:
                 vcov = _expand_vcov_with_nan(vcov_reduced, k, kept_cols)
             else:
                 # Full rank: standard computation
-                mse = np.sum(residuals**2) / (n - k)
+                mse = np.sum(residuals**2) / (n - k) if n > k else np.nan
                 try:
                     vcov = np.linalg.solve(X.T @ X, mse * np.eye(k))
                 except np.linalg.LinAlgError:
-- 
2.43.0


From 231bb3f7e66ea4933ed00f790925aec674e305a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 43/65] fix: within_transform with input columns named like its
 output

A column <outcome>_demeaned (or _dm) already in the data appeared twice in
the transformed frame: TWFE and Sun-Abraham raised, and a covariate's one
silently entered the regression next to the real demeaned covariate.
---
 diff_diff/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 06ddcf0..2f843d3 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1509,6 +1509,8 @@ def within_transform(
 
         # Add all columns at once
         demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
+        # A column of the same name in the input would otherwise appear twice
+        data = data.drop(columns=[c for c in demeaned_df.columns if c in data.columns])
         data = pd.concat([data, demeaned_df], axis=1)
 
     return data
-- 
2.43.0


From 463dcb66e5db545626de67804a99c568385bfca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 44/65] fix: CallawaySantAnna overwrote a user's column called
 first_treat

The cohort column was copied to 'first_treat' in the working frame, so an
outcome or covariate of that name was replaced by the cohort.
---
 diff_diff/staggered.py             | 2 +-
 diff_diff/staggered_aggregation.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index dae9027..c3f64eb 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -640,7 +640,7 @@ class CallawaySantAnna(
 
         # Standardize the first_treat column name for internal use
         # This avoids hardcoding column names in internal methods
-        df['first_treat'] = df[first_treat]
+        df['_first_treat'] = df[first_treat]
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
diff --git a/diff_diff/staggered_aggregation.py b/diff_diff/staggered_aggregation.py
index 1419413..c18ce6f 100644
--- a/diff_diff/staggered_aggregation.py
+++ b/diff_diff/staggered_aggregation.py
@@ -222,7 +222,7 @@ class CallawaySantAnnaAggregationMixin:
         # This differs from our old formula which used n_g / total_treated
         group_sizes = {}
         for g in unique_groups:
-            treated_in_g = df[df['first_treat'] == g][unit].nunique()
+            treated_in_g = df[df['_first_treat'] == g][unit].nunique()
             group_sizes[g] = treated_in_g
 
         # pg indexed by group
@@ -277,7 +277,7 @@ class CallawaySantAnnaAggregationMixin:
             # Fallback: build from DataFrame (slow path for backward compatibility)
             unit_groups_array = np.full(n_units, -1, dtype=np.float64)
             for i, uid in enumerate(all_units):
-                unit_first_treat = df[df[unit] == uid]['first_treat'].iloc[0]
+                unit_first_treat = df[df[unit] == uid]['_first_treat'].iloc[0]
                 if unit_first_treat in unique_groups_set:
                     unit_groups_array[i] = unit_first_treat
 
-- 
2.43.0


From a5a6579ae85fd3439594eaaf97d602ae993b210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 45/65] fix: dataset downloads lost midway or cached partially

A dropped or truncated connection escaped the fallback to the cache, a full
disk or a crash while caching left a partial file that later loads trusted,
and cached text was read in the locale's encoding.
---
 diff_diff/datasets.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..e507ee3 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,10 +8,11 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+import os
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
 from typing import Dict
-from urllib.error import HTTPError, URLError
 from urllib.request import urlopen
 
 import numpy as np
@@ -37,27 +38,41 @@ def _download_with_cache(
     cache_path = _get_cache_path(name)
 
     if cache_path.exists() and not force_download:
-        return cache_path.read_text()
+        return cache_path.read_text(encoding="utf-8")
 
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            cache_path.write_text(content)
-            return content
-    except (HTTPError, URLError) as e:
+    except (OSError, HTTPException) as e:
+        # URLError and HTTPError are OSErrors; the connection can also be lost,
+        # time out or end early while the response is being read.
         if cache_path.exists():
             # Use cached version if download fails
-            return cache_path.read_text()
+            return cache_path.read_text(encoding="utf-8")
         raise RuntimeError(
             f"Failed to download dataset '{name}' from {url}: {e}\n"
             "Check your internet connection or try again later."
         ) from e
 
+    _write_cache(cache_path, content)
+    return content
+
+
+def _write_cache(cache_path: Path, content: str) -> None:
+    """Store a downloaded file so that the cache never holds part of it."""
+    tmp_path = cache_path.with_name(f"{cache_path.name}.{os.getpid()}.tmp")
+    try:
+        tmp_path.write_text(content, encoding="utf-8")
+        os.replace(tmp_path, cache_path)
+    except OSError:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
 
 def clear_cache() -> None:
     """Clear the local dataset cache."""
     if _CACHE_DIR.exists():
-        for f in _CACHE_DIR.glob("*.csv"):
+        for f in _CACHE_DIR.glob("*.csv*"):
             f.unlink()
         print(f"Cleared cache at {_CACHE_DIR}")
 
-- 
2.43.0


From 4a7f360f3deda79bc68c76c145921ce20fcd5036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 46/65] fix: loading built-in datasets reseeded numpy's global
 generator

---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index e507ee3..c9270d7 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -175,7 +175,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -186,8 +186,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -197,8 +197,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -208,8 +208,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -219,8 +219,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -320,7 +320,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -343,9 +343,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -357,15 +357,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -469,7 +469,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -492,9 +492,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -527,11 +527,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -616,7 +616,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -627,9 +627,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -648,8 +648,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From f5ba38915eba5d71a7458c9dbb143a412fb4c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 47/65] fix: set_params accepts only parameters and values the
 constructor accepts

Unknown names were ignored or set arbitrary attributes, invalid values were
stored until a later fit failed, and a rejected call kept half the changes.
---
 diff_diff/bacon.py         |  3 +++
 diff_diff/estimators.py    | 10 +++++++---
 diff_diff/honest_did.py    | 11 +++++++----
 diff_diff/staggered.py     | 18 +++++++++++-------
 diff_diff/sun_abraham.py   | 10 +++++++---
 diff_diff/synthetic_did.py | 10 +++++++---
 diff_diff/triple_diff.py   | 10 +++++++---
 diff_diff/trop.py          | 10 +++++++---
 8 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index cfa59d1..6066ce9 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -873,6 +873,9 @@ class BaconDecomposition:
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
+        for key in params:
+            if key != "weights":
+                raise ValueError(f"Unknown parameter: {key}")
         if "weights" in params:
             if params["weights"] not in ("approximate", "exact"):
                 raise ValueError(
diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 198e513..21dd940 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -625,11 +625,15 @@ class DifferenceInDifferences:
         -------
         self
         """
+        values = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            if key not in values:
                 raise ValueError(f"Unknown parameter: {key}")
+            values[key] = value
+        # Validate and convert exactly as at construction
+        checked = type(self)(**values)
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 62bf14d..590838c 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1046,12 +1046,15 @@ class HonestDiD:
 
     def set_params(self, **params) -> "HonestDiD":
         """Set parameters for this estimator."""
+        values = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            if key not in values:
                 raise ValueError(f"Invalid parameter: {key}")
-        self._validate_params()
+            values[key] = value
+        # Validate and convert exactly as at construction
+        checked = type(self)(**values)
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
     def fit(
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index c3f64eb..e576113 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1098,16 +1098,20 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
+        values = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            if key not in values:
                 raise ValueError(f"Unknown parameter: {key}")
+            values[key] = value
         # bootstrap_weight_type is a deprecated alias of bootstrap_weights
-        if "bootstrap_weights" in params:
-            self.bootstrap_weight_type = self.bootstrap_weights
-        elif "bootstrap_weight_type" in params:
-            self.bootstrap_weights = self.bootstrap_weight_type
+        alias = values.pop("bootstrap_weight_type")
+        if "bootstrap_weight_type" in params and "bootstrap_weights" not in params:
+            values["bootstrap_weights"] = alias
+        # Validate and convert exactly as at construction
+        checked = type(self)(**values)
+        for key in values:
+            setattr(self, key, getattr(checked, key))
+        self.bootstrap_weight_type = self.bootstrap_weights
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index b50217e..f362a84 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1172,11 +1172,15 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
+        values = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            if key not in values:
                 raise ValueError(f"Unknown parameter: {key}")
+            values[key] = value
+        # Validate and convert exactly as at construction
+        checked = type(self)(**values)
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 8cfbc44..9c54a36 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -741,9 +741,13 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
+        values = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            if key not in values:
                 raise ValueError(f"Unknown parameter: {key}")
+            values[key] = value
+        # Validate and convert exactly as at construction
+        checked = type(self)(**values)
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 484116b..b217b21 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1177,11 +1177,15 @@ class TripleDifference:
         -------
         self
         """
+        values = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            if key not in values:
                 raise ValueError(f"Unknown parameter: {key}")
+            values[key] = value
+        # Validate and convert exactly as at construction
+        checked = type(self)(**values)
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 76274c8..b5995cc 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -3105,11 +3105,15 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
+        values = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+            if key not in values:
                 raise ValueError(f"Unknown parameter: {key}")
+            values[key] = value
+        # Validate and convert exactly as at construction
+        checked = type(self)(**values)
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
 
-- 
2.43.0


From 7a3e952b3ebf9fa1fe1ea5f9b304ac9ed3ee6ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 48/65] fix: synthetic weights did not converge for outcomes
 with a large level

Gradient steps are sized by the norm of the outcome matrix, so a common
level (which the simplex constraint makes irrelevant) left the weights near
uniform: adding a constant to every outcome changed the SDID estimate.
---
 diff_diff/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 2f843d3..71d10ca 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1050,6 +1050,12 @@ def compute_synthetic_weights(
     if n_control == 1:
         return np.asarray([1.0])
 
+    # The weights sum to one, so a common level per period does not change the
+    # objective; left in, a large level keeps the gradient steps from converging.
+    period_level = np.mean(Y_control, axis=1)
+    Y_control = Y_control - period_level[:, np.newaxis]
+    Y_treated = Y_treated - period_level
+
     # Use Rust backend if available
     if HAS_RUST_BACKEND:
         Y_control = np.ascontiguousarray(Y_control, dtype=np.float64)
-- 
2.43.0


From 8d62c1cd2858f18ccca4b06c0e12232aae1ef529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 49/65] fix: confidence levels and significance levels shown as
 they are

int((1 - alpha) * 100) shows a 93% interval as 92% and a 99.9% one as 99%;
the placebo summary always said 0.05.
---
 diff_diff/diagnostics.py       | 6 +++---
 diff_diff/honest_did.py        | 2 +-
 diff_diff/results.py           | 6 +++---
 diff_diff/staggered_results.py | 2 +-
 diff_diff/sun_abraham.py       | 2 +-
 diff_diff/triple_diff.py       | 2 +-
 diff_diff/trop.py              | 2 +-
 diff_diff/utils.py             | 2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index ceccc4f..92e7997 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -85,7 +85,7 @@ class PlaceboTestResults:
 
     def summary(self) -> str:
         """Generate formatted summary of placebo test results."""
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         lines = [
             "=" * 65,
@@ -143,14 +143,14 @@ class PlaceboTestResults:
 
         if self.is_significant:
             lines.append(
-                "WARNING: Significant placebo effect detected (p < 0.05)."
+                f"WARNING: Significant placebo effect detected (p < {self.alpha:g})."
             )
             lines.append(
                 "This suggests potential violations of the parallel trends assumption."
             )
         else:
             lines.append(
-                "No significant placebo effect detected (p >= 0.05)."
+                f"No significant placebo effect detected (p >= {self.alpha:g})."
             )
             lines.append(
                 "This is consistent with the parallel trends assumption."
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 590838c..8e1c608 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -240,7 +240,7 @@ class HonestDiDResults:
         str
             Formatted summary.
         """
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:g}"
 
         method_names = {
             "smoothness": "Smoothness (Delta^SD)",
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 213d09f..75340bf 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -83,7 +83,7 @@ class DiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 70,
@@ -324,7 +324,7 @@ class MultiPeriodDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 80,
@@ -562,7 +562,7 @@ class SyntheticDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index 617a839..a629667 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -137,7 +137,7 @@ class CallawaySantAnnaResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index f362a84..f12ad22 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -108,7 +108,7 @@ class SunAbrahamResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index b217b21..fab25b5 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -136,7 +136,7 @@ class TripleDifferenceResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index b5995cc..c1c2021 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -196,7 +196,7 @@ class TROPResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 71d10ca..c7da284 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -202,7 +202,7 @@ class WildBootstrapResults:
             f"Bootstrap SE:        {self.se:.6f}",
             f"Bootstrap p-value:   {self.p_value:.4f}",
             f"Original t-stat:     {self.t_stat_original:.4f}",
-            f"CI ({int((1-self.alpha)*100)}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
+            f"CI ({(1-self.alpha)*100:g}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
             f"Number of clusters:  {self.n_clusters}",
             f"Bootstrap reps:      {self.n_bootstrap}",
             f"Weight type:         {self.weight_type}",
-- 
2.43.0


From 1c4e86a15e9852365fa634dc510bf2a70656b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 50/65] fix: SunAbraham reports an undefined, not a zero,
 overall effect when no post-treatment effect exists

---
 diff_diff/sun_abraham.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index f12ad22..cc4ce84 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -600,6 +600,13 @@ class SunAbraham:
             coef_index_map,
         )
 
+        if not any(e >= 0 for e in event_study_effects):
+            warnings.warn(
+                "No post-treatment effects available for overall ATT aggregation. "
+                "This can occur when cohorts lack post-treatment periods in the data.",
+                UserWarning,
+                stacklevel=2,
+            )
         overall_t = overall_att / overall_se if overall_se > 0 else np.nan
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
@@ -915,7 +922,8 @@ class SunAbraham:
         ]
 
         if not post_effects:
-            return 0.0, 0.0
+            # Nothing to aggregate: the overall effect is undefined, not zero
+            return np.nan, np.nan
 
         # Weight by number of treated observations at each relative time
         post_weights = []
@@ -1082,7 +1090,10 @@ class SunAbraham:
                     vcov_b,
                     coef_map_b,
                 )
-                bootstrap_overall[b] = overall_b
+                if any(e >= 0 for e in event_study_b):
+                    bootstrap_overall[b] = overall_b
+                else:
+                    bootstrap_overall[b] = original_overall_att
 
             except (ValueError, np.linalg.LinAlgError) as exc:
                 # If bootstrap iteration fails, use original
@@ -1148,6 +1159,8 @@ class SunAbraham:
         boot_dist: np.ndarray,
     ) -> float:
         """Compute two-sided bootstrap p-value."""
+        if not np.isfinite(original_effect):
+            return np.nan
         if original_effect >= 0:
             p_one_sided = float(np.mean(boot_dist <= 0))
         else:
-- 
2.43.0


From c9cc379f7c07f7807a6be72b215e11687a97c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 51/65] fix: plot_honest_event_study draws robust intervals
 that exclude the period's estimate instead of raising

---
 diff_diff/visualization.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 3ba3a80..81a2c4f 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -842,13 +842,12 @@ def plot_honest_event_study(
         linewidth=1, alpha=0.6, label='Standard CI'
     )
 
-    # Plot honest CIs (thicker, foreground)
-    yerr_honest = [
-        [e - lower for e, lower in zip(effects, honest_ci_lower)],
-        [u - e for e, u in zip(effects, honest_ci_upper)]
-    ]
+    # Plot honest CIs (thicker, foreground), drawn around their own midpoints:
+    # a period's estimate may lie outside the robust interval
+    honest_mid = [(lower + u) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)]
+    yerr_honest = [(u - lower) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)]
     ax.errorbar(
-        x_vals, effects, yerr=yerr_honest,
+        x_vals, honest_mid, yerr=yerr_honest,
         fmt='none', color=honest_color, capsize=capsize,
         linewidth=2, label=f'Honest CI (M={honest_results.M:.2f})'
     )
-- 
2.43.0


From da9ab8fcf3221e72f8e7bcad827f9210a77a7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 52/65] fix: power plots mark the detectable effect on the
 curve when the grid is not ascending

---
 diff_diff/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 81a2c4f..0f89ee1 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -1409,7 +1409,8 @@ def plot_power_curve(
             effect_arr = np.array(effect_sizes)
             power_arr = np.array(powers)
             if effect_arr.min() <= mde <= effect_arr.max():
-                power_at_mde = np.interp(mde, effect_arr, power_arr)
+                order = np.argsort(effect_arr)
+                power_at_mde = np.interp(mde, effect_arr[order], power_arr[order])
             else:
                 power_at_mde = None
 
@@ -1648,7 +1649,8 @@ def plot_pretrends_power(
             M_arr = np.array(M_values)
             power_arr = np.array(powers)
             if M_arr.min() <= mdv <= M_arr.max():
-                power_at_mdv = np.interp(mdv, M_arr, power_arr)
+                order = np.argsort(M_arr)
+                power_at_mdv = np.interp(mdv, M_arr[order], power_arr[order])
                 ax.scatter(
                     [mdv], [power_at_mdv],
                     color=mdv_color,
-- 
2.43.0


From 3d84b0f21a040c8a2c930f4c00d6b560fb36a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:33 +0000
Subject: [PATCH 53/65] fix: synthetic control weights no longer depend on the
 units of the outcome

---
 diff_diff/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index c7da284..617879f 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1103,7 +1103,8 @@ def _compute_synthetic_weights_numpy(
 
     # Solve with projected gradient descent
     # Project onto probability simplex
-    step_size = 1.0 / (np.linalg.norm(H, 2) + _NUMERICAL_EPS)
+    curvature = np.linalg.norm(H, 2)
+    step_size = 1.0 / curvature if curvature > 0 else 1.0
 
     for _ in range(_OPTIMIZATION_MAX_ITER):
         weights_old = weights.copy()
@@ -1205,6 +1206,10 @@ def compute_time_weights(
 
     # Inverse weighting: periods with smaller differences get higher weight
     # Add regularization to prevent extreme weights
+    # (relative to the differences, so that the weights do not depend on units)
+    largest = np.max(diffs)
+    if largest > 0:
+        diffs = diffs / largest
     inv_diffs = 1.0 / (diffs + zeta * np.std(diffs) + _NUMERICAL_EPS)
 
     # Normalize to sum to 1
-- 
2.43.0


From 8835f4c2aa4a9cc53f10fca82e2cdfc357ae8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 54/65] fix: TROP with an infinite nuclear norm penalty drops
 the factor model whatever the units

---
 diff_diff/trop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index c1c2021..c1e9385 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2494,6 +2494,11 @@ class TROP:
             # Use soft-thresholding with threshold=0 which returns the input
             return R_masked
 
+        if lambda_nn >= 1e10:
+            # λ_nn=∞ (converted to 1e10): factor model disabled, whatever the
+            # units of the outcome
+            return np.zeros_like(L_init)
+
         # Normalize weights so max is 1 (for step size stability)
         W_max = np.max(W)
         if W_max > 0:
-- 
2.43.0


From 6e36774c2e29213f26424d7601941f43eea096c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 55/65] fix: propensity scores no longer depend on the units of
 the covariates

---
 diff_diff/staggered.py   | 11 ++++++++++-
 diff_diff/triple_diff.py | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index e576113..52282ba 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -71,8 +71,12 @@ def _logistic_regression(
         Predicted probabilities.
     """
     n, p = X.shape
+    # Standardise covariates so that convergence does not depend on their units
+    center = X.mean(axis=0)
+    scale = X.std(axis=0)
+    scale = np.where(scale > 0, scale, 1.0)
     # Add intercept
-    X_with_intercept = np.column_stack([np.ones(n), X])
+    X_with_intercept = np.column_stack([np.ones(n), (X - center) / scale])
 
     def neg_log_likelihood(beta: np.ndarray) -> float:
         z = X_with_intercept @ beta
@@ -103,6 +107,11 @@ def _logistic_regression(
     z = np.clip(z, -500, 500)
     probs = 1 / (1 + np.exp(-z))
 
+    # Back to the units of X
+    beta = beta.copy()
+    beta[1:] /= scale
+    beta[0] -= beta[1:] @ center
+
     return beta, probs
 
 
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index fab25b5..c7b1049 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -295,7 +295,11 @@ def _logistic_regression(
         Predicted probabilities.
     """
     n, p = X.shape
-    X_with_intercept = np.column_stack([np.ones(n), X])
+    # Standardise covariates so that convergence does not depend on their units
+    center = X.mean(axis=0)
+    scale = X.std(axis=0)
+    scale = np.where(scale > 0, scale, 1.0)
+    X_with_intercept = np.column_stack([np.ones(n), (X - center) / scale])
 
     def neg_log_likelihood(beta: np.ndarray) -> float:
         z = X_with_intercept @ beta
@@ -324,6 +328,11 @@ def _logistic_regression(
     z = np.clip(z, -500, 500)
     probs = 1 / (1 + np.exp(-z))
 
+    # Back to the units of X
+    beta = beta.copy()
+    beta[1:] /= scale
+    beta[0] -= beta[1:] @ center
+
     return beta, probs
 
 
-- 
2.43.0


From 92bb8207dacc78472f3a2a732220aa9a00bbec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 56/65] fix: periods stored as unsigned integers no longer wrap
 around before treatment

---
 diff_diff/prep.py        |  4 ++--
 diff_diff/staggered.py   |  5 +++--
 diff_diff/sun_abraham.py |  5 +++--
 diff_diff/utils.py       | 11 +++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index c6b755b..c890313 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -14,7 +14,7 @@ from typing import Any, Dict, List, Optional, Union
 import numpy as np
 import pandas as pd
 
-from diff_diff.utils import compute_synthetic_weights
+from diff_diff.utils import _signed_periods, compute_synthetic_weights
 
 # Re-export data generation functions from prep_dgp for backward compatibility
 from diff_diff.prep_dgp import (
@@ -704,7 +704,7 @@ def create_event_time(
         raise ValueError(f"Column '{treatment_time_column}' not found in DataFrame.")
 
     # Calculate event time
-    df[new_column] = df[time_column] - df[treatment_time_column]
+    df[new_column] = _signed_periods(df[time_column]) - _signed_periods(df[treatment_time_column])
 
     # Handle never-treated (inf or NaN in treatment time)
     col = df[treatment_time_column]
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 52282ba..eaf70fe 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -14,6 +14,7 @@ from scipy import optimize
 
 from diff_diff.linalg import solve_ols
 from diff_diff.utils import (
+    _signed_periods,
     compute_confidence_interval,
     compute_p_value,
 )
@@ -644,8 +645,8 @@ class CallawaySantAnna(
         df = data.copy()
 
         # Ensure numeric types
-        df[time] = pd.to_numeric(df[time])
-        df[first_treat] = pd.to_numeric(df[first_treat])
+        df[time] = _signed_periods(pd.to_numeric(df[time]))
+        df[first_treat] = _signed_periods(pd.to_numeric(df[first_treat]))
 
         # Standardize the first_treat column name for internal use
         # This avoids hardcoding column names in internal methods
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cc4ce84..a89fb7b 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -19,6 +19,7 @@ import pandas as pd
 from diff_diff.linalg import LinearRegression, compute_robust_vcov
 from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
+    _signed_periods,
     compute_confidence_interval,
     compute_p_value,
     within_transform as _within_transform_util,
@@ -483,8 +484,8 @@ class SunAbraham:
         df = data.copy()
 
         # Ensure numeric types
-        df[time] = pd.to_numeric(df[time])
-        df[first_treat] = pd.to_numeric(df[first_treat])
+        df[time] = _signed_periods(pd.to_numeric(df[time]))
+        df[first_treat] = _signed_periods(pd.to_numeric(df[first_treat]))
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 617879f..d33a5de 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -26,6 +26,17 @@ _OPTIMIZATION_TOL = 1e-8  # Convergence tolerance for optimization
 _NUMERICAL_EPS = 1e-10  # Small constant to prevent division by zero
 
 
+def _signed_periods(periods: pd.Series) -> pd.Series:
+    """
+    Periods whose differences can be negative.
+
+    Differences of unsigned (or narrow) integers wrap around instead.
+    """
+    if not pd.api.types.is_integer_dtype(periods):
+        return periods
+    return periods.astype("int64" if isinstance(periods.dtype, np.dtype) else "Int64")
+
+
 def validate_binary(arr: np.ndarray, name: str) -> None:
     """
     Validate that an array contains only binary values (0 or 1).
-- 
2.43.0


From 8f24d1bfee5d9b17e8ba46dae1d0bedd12e1939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 57/65] fix: outcomes stored as narrow, unsigned or nullable
 integers are differenced as numbers

---
 diff_diff/staggered.py | 4 ++++
 diff_diff/trop.py      | 5 +++++
 diff_diff/twfe.py      | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index eaf70fe..0061f42 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -648,6 +648,10 @@ class CallawaySantAnna(
         df[time] = _signed_periods(pd.to_numeric(df[time]))
         df[first_treat] = _signed_periods(pd.to_numeric(df[first_treat]))
 
+        # Differences of narrow or unsigned integer outcomes would wrap around
+        if pd.api.types.is_numeric_dtype(df[outcome]):
+            df[outcome] = df[outcome].astype(float)
+
         # Standardize the first_treat column name for internal use
         # This avoids hardcoding column names in internal methods
         df['_first_treat'] = df[first_treat]
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index c1e9385..fcfbdd6 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1877,6 +1877,11 @@ class TROP:
         if missing:
             raise ValueError(f"Missing columns: {missing}")
 
+        # Arithmetic on narrow or unsigned integer outcomes would wrap around
+        if pd.api.types.is_numeric_dtype(data[outcome]):
+            data = data.copy()
+            data[outcome] = data[outcome].astype(float)
+
         # Dispatch based on estimation method
         if self.method == "joint":
             return self._fit_joint(data, outcome, treatment, unit, time)
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 7440c09..3805a24 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -110,7 +110,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         )
 
         # Extract variables for regression
-        y = data_demeaned[f"{outcome}_demeaned"].values
+        y = data_demeaned[f"{outcome}_demeaned"].values.astype(float)
         X_list = [data_demeaned["_treatment_post"].values]
 
         if covariates:
-- 
2.43.0


From 2942ebb4e7c4611a1491e9ab9f52efc035bb0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 58/65] fix: robust covariances of integer design matrices do
 not overflow

---
 diff_diff/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index fad95e4..dddfb04 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -776,11 +776,12 @@ def compute_robust_vcov(
     The cluster-robust computation is vectorized using pandas groupby,
     which is much faster than a Python loop over clusters.
     """
+    # Products of integers could overflow
+    X = np.ascontiguousarray(X, dtype=np.float64)
+    residuals = np.ascontiguousarray(residuals, dtype=np.float64)
+
     # Use Rust backend if available
     if HAS_RUST_BACKEND:
-        X = np.ascontiguousarray(X, dtype=np.float64)
-        residuals = np.ascontiguousarray(residuals, dtype=np.float64)
-
         cluster_ids_int = None
         if cluster_ids is not None:
             cluster_ids_int = pd.factorize(cluster_ids)[0].astype(np.int64)
-- 
2.43.0


From bbefe28465df5efffd23fe779a91228f28e75d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 59/65] fix: control candidates can be ranked on covariates of
 nullable types

---
 diff_diff/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index c890313..c3fdca0 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1037,7 +1037,7 @@ def rank_control_units(
     # -------------------------------------------------------------------------
     if covariates and len(covariates) > 0:
         # Get unit-level covariate values (pre-treatment mean)
-        cov_data = pre_data.groupby(unit_column)[covariates].mean()
+        cov_data = pre_data.groupby(unit_column)[covariates].mean().astype(float)
 
         # Treated covariate profile (mean across treated units)
         treated_cov = cov_data.loc[treated_list].mean()
-- 
2.43.0


From 7cc8b37d57416020132d3df2c4c6eadc842a02e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 60/65] fix: outcome changes of nullable unsigned integers do
 not wrap around

---
 diff_diff/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index d33a5de..0c23c34 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -824,7 +824,7 @@ def _compute_outcome_changes(
     if unit is not None:
         # Unit-level changes: compute change for each unit across periods
         data_sorted = data.sort_values([unit, time])
-        data_sorted["_outcome_change"] = data_sorted.groupby(unit)[outcome].diff()
+        data_sorted["_outcome_change"] = data_sorted[outcome].astype(float).groupby(data_sorted[unit]).diff()
 
         # Remove NaN from first period of each unit
         changes_data = data_sorted.dropna(subset=["_outcome_change"])
-- 
2.43.0


From 4797dbacd545ecb2541189a4bf6eadbc1a248f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 61/65] fix: control candidates can be ranked on outcomes of
 nullable types with gaps

---
 diff_diff/prep.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index c3fdca0..3269e6a 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -922,6 +922,13 @@ def rank_control_units(
         if invalid_required:
             raise ValueError(f"Units cannot be both required and excluded: {invalid_required}")
 
+    # Nullable numbers carry their own missing value, which numpy does not know
+    numeric = [
+        col for col in [outcome_column] + list(covariates or [])
+        if pd.api.types.is_numeric_dtype(data[col])
+    ]
+    data = data.astype({col: float for col in numeric})
+
     # -------------------------------------------------------------------------
     # Determine pre-treatment periods
     # -------------------------------------------------------------------------
@@ -1037,7 +1044,7 @@ def rank_control_units(
     # -------------------------------------------------------------------------
     if covariates and len(covariates) > 0:
         # Get unit-level covariate values (pre-treatment mean)
-        cov_data = pre_data.groupby(unit_column)[covariates].mean().astype(float)
+        cov_data = pre_data.groupby(unit_column)[covariates].mean()
 
         # Treated covariate profile (mean across treated units)
         treated_cov = cov_data.loc[treated_list].mean()
-- 
2.43.0


From 55e3ba2a932ddb63445195574bdd53f13dcf1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 62/65] fix: count permutations that tie with the original
 effect up to rounding

---
 diff_diff/diagnostics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 92e7997..b8a9516 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -650,8 +650,10 @@ def permutation_test(
                 stacklevel=2
             )
 
-    # Compute p-value: proportion of |permuted| >= |original|
-    p_value = np.mean(np.abs(valid_effects) >= np.abs(original_att))
+    # Compute p-value: proportion of |permuted| >= |original|. The original split
+    # with the groups exchanged ties with the original up to rounding.
+    tie_tol = 1e-9 * np.max(np.abs(valid_effects))
+    p_value = np.mean(np.abs(valid_effects) >= np.abs(original_att) - tie_tol)
 
     # Ensure p-value is at least 1/(n_permutations + 1)
     p_value = max(p_value, 1 / (len(valid_effects) + 1))
-- 
2.43.0


From 355388b252590262fb52d95819e9d4729c07b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 63/65] fix: count wild bootstrap draws that tie with the
 observed statistic up to rounding

---
 diff_diff/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 0c23c34..400ddda 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -506,8 +506,10 @@ def wild_bootstrap_se(
             bootstrap_t_stats[b] = 0.0
 
     # Step 4: Compute bootstrap p-value
-    # P-value is proportion of |t*| >= |t_original|
-    p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
+    # P-value is proportion of |t*| >= |t_original|. Draws that reproduce the
+    # sample (all signs alike) tie with t_original up to rounding.
+    tie_tol = 1e-9 * max(1.0, np.abs(t_stat_original))
+    p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original) - tie_tol)
 
     # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
     p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
-- 
2.43.0


From dad6d134451d231434247a5207f03f5e3c12060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 64/65] fix: Sun-Abraham effects more than twenty periods from
 adoption are not part of the reference

---
 diff_diff/sun_abraham.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index a89fb7b..ef953e6 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -534,18 +534,13 @@ class SunAbraham:
 
         all_rel_times_sorted = sorted(all_rel_times)
 
-        # Filter to reasonable range
-        min_rel = max(min(all_rel_times_sorted), -20)  # cap at -20
-        max_rel = min(max(all_rel_times_sorted), 20)   # cap at +20
-
         # Reference period: last pre-treatment period (typically -1)
         self._reference_period = -1 - self.anticipation
 
-        # Get relative periods to estimate (excluding reference)
+        # Get relative periods to estimate (excluding reference). A relative time
+        # without an indicator would count as an untreated reference.
         rel_periods_to_estimate = [
-            e
-            for e in all_rel_times_sorted
-            if min_rel <= e <= max_rel and e != self._reference_period
+            e for e in all_rel_times_sorted if e != self._reference_period
         ]
 
         # Determine cluster variable
-- 
2.43.0


From 409b04cdc7272d4f1bbf23cbbde9961adfcf7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:43 +0000
Subject: [PATCH 65/65] fix: the breakdown value of an effect robust to M=10 is
 found rather than reported as absent

---
 diff_diff/honest_did.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 8e1c608..e679b67 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1417,15 +1417,16 @@ class HonestDiD:
         if not result_0.is_significant:
             return 0.0
 
-        # Check if significant even for large M
-        result_large = self.fit(results, M=10)
-        if result_large.is_significant:
-            return None  # Always significant
-
-        # Binary search
+        # Find an M at which the interval includes zero (M is in units of the
+        # outcome unless it is relative, so no fixed M is large enough)
         lo, hi = 0.0, 10.0
+        while self.fit(results, M=hi).is_significant:
+            lo, hi = hi, 2 * hi
+            if hi > 1e12:
+                return None  # Always significant
 
-        while hi - lo > tol:
+        # Binary search
+        while hi - lo > max(tol, 1e-12 * hi):
             mid = (lo + hi) / 2
             result = self.fit(results, M=mid)
             if result.is_significant:
-- 
2.43.0

