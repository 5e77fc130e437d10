From f3753222a5cf8e2e8156b460e92df2b84157ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:04 +0000
Subject: [PATCH 01/11] fix: t_test on zero-variance zero-mean data no longer
 uses the removed np.float

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 087a12e29bfd01cb1dba2b72192e2014c2dc4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:04 +0000
Subject: [PATCH 02/11] fix: get_pred_log_prob/get_gauss_pred work with joblib
 versions without the cachedir keyword

---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..d996060 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..9de5f4e 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From 125ec3c624941fe77df45bef7015512c9aa3943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:04 +0000
Subject: [PATCH 03/11] fix: build_lag_df works on Python 3 and puts lag 0
 first as documented

---
 mlpaper/data_splitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..58cc0f4 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -56,12 +56,12 @@ def build_lag_df(df, n_lags, stride=1, features=None):
          3    3  5  6   8   4   2   9
     """
     df_sub = df if features is None else df[list(features)]  # Take all if None
-    D = {(SFT_FMT % nn): df_sub.shift(stride * nn) for nn in range(1, n_lags)}
-    D[SFT_FMT % 0] = df
+    D = {SFT_FMT % 0: df}
+    D.update((SFT_FMT % nn, df_sub.shift(stride * nn)) for nn in range(1, n_lags))
 
     df = pd.concat(D, axis=1, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From bb1a68bb665883d7f68d411e108ea6326f138e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:04 +0000
Subject: [PATCH 04/11] fix: TeX header of a shifted column contains \times
 instead of a tab

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..b079453 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = r"%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From f4602ef38af8d4e5a33e213ece795bb7410bf05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 05/11] fix: clip_EB keeps the error bar when the estimate is
 nan

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..ee761de 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -59,7 +59,7 @@ def clip_EB(mu, EB, lower=-np.inf, upper=np.inf, min_EB=0.0):
     with np.errstate(invalid="ignore"):  # expect non-finite here
         EB_trivial = np.fmax(upper - mu, mu - lower)
     assert not (min_EB > EB_trivial)  # Let NaNs pass
-    EB = np.clip(EB, min_EB, EB_trivial)
+    EB = np.clip(EB, min_EB, np.inf if np.isnan(EB_trivial) else EB_trivial)
     return EB
 
 
-- 
2.43.0


From f5cee52273b8baf26e9f6f8e358fd613a5a887bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:17 +0000
Subject: [PATCH 06/11] fix: loss_summary_table accepts losses whose mean
 rounds just past the limits

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ee761de..42ce821 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -518,7 +518,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
             assert not np.any(np.isnan(loss))  # Would let method cheat
             assert np.all(lower <= loss) and np.all(loss <= upper)
 
-            mu = np.mean(loss)  # This is the same in all cases
+            mu = clip_chk(np.mean(loss), lower, upper)  # This is the same in all cases
 
             deltas = loss - loss_ref
             range_ = upper - lower
-- 
2.43.0


From 54f683436e63107156f93cf9333c2e7056418e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 07/11] fix: ordered_split_series no longer fails when the
 fraction hits a whole number of cases

---
 mlpaper/data_splitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 58cc0f4..23d58d0 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -213,7 +213,8 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
+    # Smallest idx such that the cases up to and including it are >= frac of all
+    idx = int(np.searchsorted(np.arange(1, len(all_cases) + 1) / len(all_cases), frac))
     assert 0 <= idx  # Should never happen due to frac check earlier
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
-- 
2.43.0


From 52ae56db6cd7399406c359ecb380ae98c0052508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:53 +0000
Subject: [PATCH 08/11] fix: decimalize mixed up mean, error and p for tables
 with columns in another order

---
 mlpaper/sciprint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index b079453..4336f5d 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -369,7 +369,10 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            # Assign by name since columns might not be in (mean, error, p) order
+            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
+            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
+            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
     return perf_tbl_dec
 
 
-- 
2.43.0


From 3c4e91da7da6a4ee1177e6c24cd859e69482908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:57 +0000
Subject: [PATCH 09/11] fix: tables restricted to some of their methods or
 metrics no longer fail with KeyError

pandas keeps the values of dropped methods, metrics or labels in
columns.levels, so a table from which some were removed by selection was
looked up for columns it no longer has.
---
 mlpaper/classification.py | 4 ++--
 mlpaper/mlpaper.py        | 2 +-
 mlpaper/regression.py     | 2 +-
 mlpaper/sciprint.py       | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d996060..b0d14bf 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -246,7 +246,7 @@ def loss_table(log_pred_prob_table, y, metrics_dict, assume_normalized=False):
         method foo's prediction of ``y[5]`` according to loss function bar is
         stored in ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     n_samples, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (n_samples,)
     assert n_samples >= 1 and n_labels >= 1 and len(methods) >= 1
@@ -480,7 +480,7 @@ def curve_summary_table(
         `x_grid`, the curve value, the lower end of confidence envelope,
         and the upper end of the confidence envelope.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     N, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (N,)
     assert ref_method in methods  # ==> len(methods) >= 1
diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 42ce821..a93960b 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -497,7 +497,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         reference method `ref_method`.
     """
     assert loss_table.columns.names == (METRIC, METHOD)
-    metrics, methods = loss_table.columns.levels
+    metrics, methods = loss_table.columns.remove_unused_levels().levels
     assert ref_method in methods  # ==> len(methods) >= 1
     assert len(loss_table) >= 1 and len(metrics) >= 1
     # Could also test these are cartesian product if we wanted to be exhaustive
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 9de5f4e..bea19b5 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -156,7 +156,7 @@ def loss_table(pred_tbl, y, metrics_dict):
         prediction of ``y[5]`` according to loss function bar is stored in
         ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, moments = pred_tbl.columns.levels
+    methods, moments = pred_tbl.columns.remove_unused_levels().levels
     assert "mu" in moments and "std" in moments
     n_samples = len(pred_tbl)
     assert y.shape == (n_samples,)
diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 4336f5d..614f308 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -336,7 +336,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
     """
     assert pval_digits >= 1
     assert perf_tbl.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl.columns.levels
+    metrics, stats = perf_tbl.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl.index.name == METHOD
@@ -744,7 +744,7 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
     """
     # For now, require perf_tbl to be all finite, might relax later.
     assert perf_tbl_dec.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl_dec.columns.levels
+    metrics, stats = perf_tbl_dec.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl_dec.index.name == METHOD
-- 
2.43.0


From daaf9034e0ccfbabb8a58877ccd3704fee141949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:35 +0000
Subject: [PATCH 10/11] fix: order ordered categoricals by their categories in
 ordered_split_series

---
 mlpaper/data_splitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 23d58d0..80bec35 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -209,9 +209,9 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     if assume_sorted and assume_unique:
         all_cases = S.values
     elif assume_unique:  # but not sorted
-        all_cases = np.sort(S.values)
+        all_cases = S.sort_values().values
     else:
-        all_cases = np.unique(S.values)
+        all_cases = S.drop_duplicates().sort_values().values
 
     # Smallest idx such that the cases up to and including it are >= frac of all
     idx = int(np.searchsorted(np.arange(1, len(all_cases) + 1) / len(all_cases), frac))
-- 
2.43.0


From 62aa84cda40571f25282e0197d8a2cefc0631483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 11/11] fix: classification.JustNoise failed on boolean
 training labels

---
 mlpaper/classification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index b0d14bf..2b6984a 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -640,6 +640,7 @@ class JustNoise:
 
     def fit(self, X_train, y_train):
         n_labels = len(self.pred)
+        y_train = y_train.astype(int) if y_train.dtype.kind == "b" else y_train  # one_hot wants int
         n_points, = np.shape(y_train)
 
         counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
-- 
2.43.0

