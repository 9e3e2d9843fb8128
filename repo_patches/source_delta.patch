From 9d5c259480200c430905e0d1d8b27607721c4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 01/13] fix: t_test crashed on zero-variance data because
 np.float was removed from numpy

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 572dc55e854fbb30910a96b974251a55a0e7b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 02/13] fix: prediction/benchmark functions crashed since
 joblib renamed cachedir to location

---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..25b5d1c 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(location=checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..1071d95 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(location=checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From c1cebefc7ef673a7bc82beb8e62c94c9872a9700 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 03/13] fix: build_lag_df crashed on Python 3 because range
 objects cannot be added to lists

---
 mlpaper/data_splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..063c068 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -61,7 +61,7 @@ def build_lag_df(df, n_lags, stride=1, features=None):
 
     df = pd.concat(D, axis=1, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From 5c6454dc4036b91cbe7a50fd6b7c27f40fa91c50 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 04/13] fix: ordered split crashed whenever the training
 fraction was met exactly

---
 mlpaper/data_splitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 063c068..ded7e74 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -213,7 +213,9 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
+    # Smallest idx such that all_cases[:idx + 1] has at least frac of the cases
+    idx = int(np.searchsorted(np.arange(1, len(all_cases) + 1) / len(all_cases), frac))
+    idx = min(idx, len(all_cases) - 1)
     assert 0 <= idx  # Should never happen due to frac check earlier
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
-- 
2.43.0


From 5b017bcbb0c4ef9b185626501e02fd3b2bb9cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 05/13] fix: LaTeX headers of shifted columns contained a tab
 instead of \times

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..b079453 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = r"%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From 901d08e9af8dbe963047a427ce7bef3d8bd7fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 06/13] fix: decimalize swapped mean, error and p when the
 table's stat columns are in another order

---
 mlpaper/sciprint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index b079453..56ff049 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -369,7 +369,10 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            # By name, since the stats can come in any order in perf_tbl
+            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
+            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
+            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
     return perf_tbl_dec
 
 
-- 
2.43.0


From 3c81854ff9687398f302542d779bd53cd1febf4d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 07/13] fix: loss_summary_table crashed when the mean loss
 rounds just outside its limits

---
 mlpaper/mlpaper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..362b58a 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -518,7 +518,8 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
             assert not np.any(np.isnan(loss))  # Would let method cheat
             assert np.all(lower <= loss) and np.all(loss <= upper)
 
-            mu = np.mean(loss)  # This is the same in all cases
+            # This is the same in all cases, clip since np.mean can round outside limits
+            mu = np.clip(np.mean(loss), lower, upper)
 
             deltas = loss - loss_ref
             range_ = upper - lower
-- 
2.43.0


From 4f83cc5985f429002b30919c82f029f1635c6080 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 08/13] fix: classification JustNoise baseline crashed on bool
 training labels

---
 mlpaper/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 25b5d1c..d646e7c 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -642,6 +642,8 @@ class JustNoise:
         n_labels = len(self.pred)
         n_points, = np.shape(y_train)
 
+        if y_train.dtype.kind == "b":  # one_hot only accepts int
+            y_train = y_train.astype(int)
         counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
         n_total = n_points + n_labels * self.pseudo_count
         self.pred = np.log(counts / n_total)
-- 
2.43.0


From b299059b2349d850cd235e4dd704dd3fa8faef7d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 09/13] fix: clip_EB lost the error bar when the estimate is
 nan

---
 mlpaper/mlpaper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 362b58a..56813ab 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -59,6 +59,8 @@ def clip_EB(mu, EB, lower=-np.inf, upper=np.inf, min_EB=0.0):
     with np.errstate(invalid="ignore"):  # expect non-finite here
         EB_trivial = np.fmax(upper - mu, mu - lower)
     assert not (min_EB > EB_trivial)  # Let NaNs pass
+    if np.isnan(EB_trivial):  # No known limit, np.clip would give nan
+        EB_trivial = np.inf
     EB = np.clip(EB, min_EB, EB_trivial)
     return EB
 
-- 
2.43.0


From f515e325a7000f9860f07cf971dfb90842ea1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:48 +0000
Subject: [PATCH 10/13] fix: loss_summary_table crashed on infinite losses in
 paired comparisons

---
 mlpaper/mlpaper.py | 5 ++++-
 mlpaper/util.py    | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 56813ab..fbca00b 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -523,7 +523,10 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
             # This is the same in all cases, clip since np.mean can round outside limits
             mu = np.clip(np.mean(loss), lower, upper)
 
-            deltas = loss - loss_ref
+            with np.errstate(invalid="ignore"):  # inf - inf if both losses are inf
+                deltas = loss - loss_ref
+            # Unknown differences are treated as infinite => can't say anything
+            deltas = np.where(np.isnan(deltas), np.inf, deltas)
             range_ = upper - lower
             self_comparison = method == ref_method
 
diff --git a/mlpaper/util.py b/mlpaper/util.py
index 6d20afd..24fa81a 100644
--- a/mlpaper/util.py
+++ b/mlpaper/util.py
@@ -13,8 +13,8 @@ STRICT_SPACING = False
 
 def clip_chk(a, a_min, a_max):
     a_clip = np.clip(a, a_min, a_max)
-    # Check that clipping was small effect
-    assert np.all((a == a_clip) | np.isclose(a, a_min) | np.isclose(a, a_max))
+    # Check that clipping was small effect, let NaNs pass
+    assert np.all(np.isnan(a) | (a == a_clip) | np.isclose(a, a_min) | np.isclose(a, a_max))
     return a_clip
 
 
-- 
2.43.0


From 7b6c17773886a438d557e9743523595594e3f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:48 +0000
Subject: [PATCH 11/13] fix: tables with some methods or metrics dropped
 crashed on the dropped column labels

---
 mlpaper/classification.py | 4 ++--
 mlpaper/mlpaper.py        | 2 +-
 mlpaper/regression.py     | 2 +-
 mlpaper/sciprint.py       | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d646e7c..40f27d5 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -246,7 +246,7 @@ def loss_table(log_pred_prob_table, y, metrics_dict, assume_normalized=False):
         method foo's prediction of ``y[5]`` according to loss function bar is
         stored in ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     n_samples, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (n_samples,)
     assert n_samples >= 1 and n_labels >= 1 and len(methods) >= 1
@@ -480,7 +480,7 @@ def curve_summary_table(
         `x_grid`, the curve value, the lower end of confidence envelope,
         and the upper end of the confidence envelope.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     N, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (N,)
     assert ref_method in methods  # ==> len(methods) >= 1
diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index fbca00b..2db8890 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -499,7 +499,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         reference method `ref_method`.
     """
     assert loss_table.columns.names == (METRIC, METHOD)
-    metrics, methods = loss_table.columns.levels
+    metrics, methods = loss_table.columns.remove_unused_levels().levels
     assert ref_method in methods  # ==> len(methods) >= 1
     assert len(loss_table) >= 1 and len(metrics) >= 1
     # Could also test these are cartesian product if we wanted to be exhaustive
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 1071d95..4ea0ff9 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -156,7 +156,7 @@ def loss_table(pred_tbl, y, metrics_dict):
         prediction of ``y[5]`` according to loss function bar is stored in
         ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, moments = pred_tbl.columns.levels
+    methods, moments = pred_tbl.columns.remove_unused_levels().levels
     assert "mu" in moments and "std" in moments
     n_samples = len(pred_tbl)
     assert y.shape == (n_samples,)
diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 56ff049..3f47c79 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -336,7 +336,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
     """
     assert pval_digits >= 1
     assert perf_tbl.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl.columns.levels
+    metrics, stats = perf_tbl.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl.index.name == METHOD
@@ -744,7 +744,7 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
     """
     # For now, require perf_tbl to be all finite, might relax later.
     assert perf_tbl_dec.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl_dec.columns.levels
+    metrics, stats = perf_tbl_dec.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl_dec.index.name == METHOD
-- 
2.43.0


From 0661ef09c990a2a1ca74c87e0a095fa2ecaa78ad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 00:09:48 +0000
Subject: [PATCH 12/13] fix: paired curve error bars crashed when both curve
 areas are -inf

---
 mlpaper/classification.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 40f27d5..c737de2 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -404,11 +404,14 @@ def curve_boot(
     assert np.ndim(ref) == 0
 
     # Pack up standard numeric summary triple
-    EB = (
-        bu.error_bar(auc_boot - ref_boot, auc - ref, confidence=confidence)
-        if pairwise_CI
-        else bu.error_bar(auc_boot, auc, confidence=confidence)
-    )
+    if pairwise_CI:
+        with np.errstate(invalid="ignore"):
+            # Equal summaries have 0 difference, even if both are -inf (for PRG)
+            delta_boot = np.where(auc_boot == ref_boot, 0.0, auc_boot - ref_boot)
+            delta = 0.0 if auc == ref else auc - ref
+        EB = bu.error_bar(delta_boot, delta, confidence=confidence)
+    else:
+        EB = bu.error_bar(auc_boot, auc, confidence=confidence)
     pval = bu.significance(auc_boot, ref_boot)
     summary = (auc, EB, pval)
 
-- 
2.43.0


From e78b9bdfad4e0d7b5dd6446ecb966ce2400908fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:26 +0000
Subject: [PATCH 13/13] fix: loss_summary_table crashed on bool losses and
 wrapped around on unsigned ones

---
 mlpaper/mlpaper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 2db8890..7617902 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -499,6 +499,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         reference method `ref_method`.
     """
     assert loss_table.columns.names == (METRIC, METHOD)
+    loss_table = loss_table.astype(float)  # Differences of bool losses crash and of unsigned ones wrap around
     metrics, methods = loss_table.columns.remove_unused_levels().levels
     assert ref_method in methods  # ==> len(methods) >= 1
     assert len(loss_table) >= 1 and len(metrics) >= 1
-- 
2.43.0

