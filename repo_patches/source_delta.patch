From a7272755c189bd0b881ef04f2a61c5fc048dd335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 01/45] fix: AICc is defined for tiny errors and long series

fit_error / n could underflow to zero, and math.log(0) raised ValueError.
A zero error is scored as the smallest positive float, so that no other
error scores better.
---
 anticipy/model_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a87c88f..42d87cc 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -272,13 +272,14 @@ def get_aic_c(fit_error, n, n_params):
             # This can lead to suboptimal model selection when we have
             # multiple perfect fits - we use a patch instead
             # aicc = -float("inf")
-            fit_error = 10 ** -320
-            aicc = n * math.log(fit_error / n) + 2 * n_params + \
+            fit_error = 5e-324  # Smallest positive float
+            aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
                 (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     else:
-        # Actual calculation of the AICc
-        aicc = n * math.log(fit_error / n) + 2 * n_params + \
+        # Actual calculation of the AICc. Division of fit_error by n could
+        # underflow to 0, so we subtract logarithms instead.
+        aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
             (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     return aicc
-- 
2.43.0


From 1503b93b756fce090457d6ef9ca649d1b8b8b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 02/45] fix: spike model places its spike by x value

It used x_min and x_max as positions in a_x, so any series whose x did not
start at 0 got a misplaced spike or failed on a negative dimension.
---
 anticipy/forecast_models.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a15ac6f..8bf4ba6 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -674,11 +674,8 @@ def _f_model_spike(a_x, a_date, params, is_mult=False, **kwargs):
         c = 1
     else:
         c = 0
-    y = np.concatenate((
-        np.full(int(x_min), c),
-        np.full(int(x_max - x_min), A),
-        np.full(len(a_x) - int(x_max), c)
-    ))
+    # The spike is located by x value, not by position in a_x
+    y = np.where((a_x >= x_min) & (a_x < x_max), A, c)
     return y
 
 
-- 
2.43.0


From ec8f51f405a4aa4b8efa77b10b665070bff65064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 03/45] fix: simplify_model accepts bounds given as lists

Several built-in models return their bounds as lists; as soon as two of those
bounds coincided, indexing the list with an array raised TypeError.
---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 8bf4ba6..a8c6722 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1896,7 +1896,7 @@ def simplify_model(f_model, a_x=None, a_y=None, a_date=None):
         return f_model
     else:  # We make parameters fixed if their min and max bounds are equal
         params_fixed = np.full(f_model.n_params, np.NaN)
-        params_fixed[i_diff_zero, ] = bounds_max[i_diff_zero, ]
+        params_fixed[i_diff_zero] = np.array(bounds_max)[i_diff_zero]
         f_model = fix_params_fmodel(f_model, params_fixed)
         logger.info(
             'Some min and max bounds are equal - generating fixed model: %s',
-- 
2.43.0


From 58351b4098ec6dbdea1a3ea2bb8a6589123b7cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 04/45] fix: fit_model reports EMPTY_TS for numeric series
 without valid samples

---
 anticipy/forecast.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0a4143a..ad364fb 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -493,10 +493,14 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
     params = []
     # Get first and last actuals date, for metadata. If no a_date, use a_x
     # instead.
-    date_start_actuals = i_date.min().date()\
-        if i_date is not None else a_x.min()
-    date_end_actuals = i_date.max().date()\
-        if i_date is not None else a_x.max()
+    if df_y.empty:  # No valid samples, no range
+        date_start_actuals = date_end_actuals = pd.NaT
+    elif i_date is not None:
+        date_start_actuals = i_date.min().date()
+        date_end_actuals = i_date.max().date()
+    else:
+        date_start_actuals = a_x.min()
+        date_end_actuals = a_x.max()
     actuals_x_range = '{}::{}'.format(date_start_actuals, date_end_actuals)
 
     if df_y.empty:
-- 
2.43.0


From 8ce101cfc527a7c37c7ebb48f4a46021bd88fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 05/45] fix: linear model has a finite starting point when all
 samples share one x

---
 anticipy/forecast_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a8c6722..74a8b96 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -762,6 +762,7 @@ def _f_init_params_linear(a_x=None, a_y=None, a_date=None, is_mult=False):
             a_x_size = np.unique(a_x).size - 1
         else:
             a_x_size = a_y.size - 1
+        a_x_size = max(a_x_size, 1)  # All samples may share a single x
         A = (a_y[-1] - a_y[0]) / a_x_size
         B = a_y[0]
         # Uniform low= 0*m, high = 1*m
-- 
2.43.0


From 38d53c74507002bc4b342504ca278909ee30a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 06/45] fix: sigmoid_step starts within its own bounds

---
 anticipy/forecast_models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 74a8b96..3b51224 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1022,6 +1022,11 @@ def _f_init_params_sigmoid_step(
         c = df.nlargest(1, 'diff').index[0]
         b = df.loc[c, 'y']
         d = b * b
+        if a_x is not None:
+            # Step is located by x value, and must fall within model bounds
+            c = a_x[c]
+            diff = max(a_y) - min(a_y)
+            b = min(max(b, -2 * diff), 2 * diff)
         return b, c, d
 
 
-- 
2.43.0


From 43fb78b310b7065d3c3626776304b918ddcee813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 07/45] fix: ramp starts within its own bounds with repeated x
 values

---
 anticipy/forecast_models.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 3b51224..b3d3009 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1104,10 +1104,20 @@ def _f_init_params_ramp(a_x=None, a_y=None, a_date=None, is_mult=False):
         # We ignore the last 15% of the time series
         skip_samples = int(np.ceil(df.index.size * 0.15))
 
-        a = (df.head(-skip_samples).tail(
-            -skip_samples).nlargest(1, 'diff2').index[0]
+        df_candidates = (
+            df.head(-skip_samples).tail(-skip_samples).dropna()
         )
-        b = df['diff2'].loc[a]
+        if df_candidates.empty:  # Too few distinct x values
+            a = df.index[0]
+            b = 0.
+        else:
+            a = df_candidates.nlargest(1, 'diff2').index[0]
+            b = df['diff2'].loc[a]
+        if a_x is not None:
+            # With multiple samples per x value, the selected value can fall
+            # outside of the model bounds
+            bounds_min, bounds_max = _f_init_bounds_ramp(a_x, a_y, a_date)
+            a = min(max(a, bounds_min[0]), bounds_max[0])
         # TODO: replace b with estimation of slope in segment 2
         #   minus slope in segment 1 - see init_params_linear
         return np.array([a, b])
-- 
2.43.0


From f97e2ed0670484cf99fad547c8f94b3f0cf93ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 08/45] fix: prediction intervals accept dates without a known
 frequency

---
 anticipy/forecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index ad364fb..33c8c94 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1567,7 +1567,9 @@ class ForecastInput:
 
 
 def _get_days_from_freq(freq):
-    if freq.startswith('Y'):
+    if freq is None:  # Unknown frequency, e.g. single sample
+        return 1
+    elif freq.startswith('Y'):
         return 365
     elif freq.startswith('M'):
         return 30
-- 
2.43.0


From 53b1557f4c07b002e7fa11d5b57f489cde4190f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 09/45] fix: gap filling keeps samples off the sampling grid
 and accepts complete months with duplicates

---
 anticipy/model_utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 42d87cc..5b28bff 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -379,11 +379,25 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
             return df
 
         # At this point, we know there are irregular intervals
+        # Check if samples match the expected dates for the series frequency
+        i_date = pd.date_range(
+            df.date.min(), df.date.max(), freq=freq
+        ) if freq is not None else pd.DatetimeIndex([])
+        is_regular = df.date.isin(i_date).all()
+
         # We need to check if there are duplicate samples
         # - if that is the case, we crash b.c. scenario not supported by asfreq
         if df.date.duplicated().any():
+            # Months and years have irregular lengths, but may have no gaps
+            if is_regular and i_date.isin(df.date).all():
+                return df
             raise ValueError('Cannot fill gaps on series with multiple '
                              'samples per date')
+        # Gap filling would lose any sample that doesn't match the frequency
+        if not is_regular:
+            logger.warning('Cannot fill gaps, dates do not match frequency %s',
+                           freq)
+            return df
         df_result = (
             df.set_index('date')
                 .asfreq(freq)
-- 
2.43.0


From e917d8b15e11b185a6f56aadcbda397930c05bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 10/45] fix: forecasts for a numeric index use the same x as
 the fit

---
 anticipy/model_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 5b28bff..682d330 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -213,9 +213,7 @@ def get_s_x_extrapolate(
                 extrapolate_years))
         s_x = pd.Series(
             index=index,
-            data=np.arange(
-                x_start_actuals,
-                x_start_actuals + index.size)) + x_start_actuals
+            data=x_start_actuals + np.arange(index.size))
     if model_requires_scaling(model):
         s_x = s_x / scaling_factor
     return s_x
-- 
2.43.0


From 8c5a98c93c748cd4adfff0875d4fa83884a4f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 11/45] fix: forecasts for a numeric index reach the end of the
 horizon

---
 anticipy/model_utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 682d330..10db112 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -205,12 +205,11 @@ def get_s_x_extrapolate(
     else:
         # Otherwise, use numeric index
         # we extrapolate future samples equal to 100*extrapolate_years
-        index = pd.Index(
-            np.arange(
-                date_start_actuals,
-                date_end_actuals +
-                100 *
-                extrapolate_years))
+        # Both the last actuals sample and the last forecast sample are included
+        n_samples = int(
+            np.floor(date_end_actuals - date_start_actuals +
+                     100 * extrapolate_years)) + 1
+        index = pd.Index(date_start_actuals + np.arange(n_samples))
         s_x = pd.Series(
             index=index,
             data=x_start_actuals + np.arange(index.size))
-- 
2.43.0


From c0319faf25a1481e952046d89555d6df8e5808a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 12/45] fix: run_forecast applies a numeric date_start_actuals

---
 anticipy/forecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 33c8c94..b358749 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1198,6 +1198,8 @@ def run_forecast_single(df_y,
     # Filter: only actuals after date_start_actuals
     if date_start_actuals is not None and 'date' in df_y.columns:
         df_y = df_y.loc[df_y.date >= date_start_actuals]
+    elif date_start_actuals is not None:
+        df_y = df_y.loc[df_y.x >= date_start_actuals]
 
     date_start_actuals = df_y.date.min() \
         if 'date' in df_y.columns else df_y.x.min()
-- 
2.43.0


From 8c3fb1d1f425930699444fd0bd9fb2a6fc94b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 13/45] fix: run_forecast extrapolates with the model that was
 fitted

---
 anticipy/forecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index b358749..17a1b0a 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1367,6 +1367,8 @@ def run_forecast_single(df_y,
         l_df_optimize_info += [df_optimize_info]
         source_long = df_metadata_tmp.source_long.iloc[0]
         params = df_metadata_tmp.params.iloc[0]
+        # The fitted model may be a simplified version of the input model
+        model = df_metadata_tmp.model_obj.iloc[0]
 
         if df_metadata_tmp.is_fit.iloc[0]:  # If model is fit
 
-- 
2.43.0


From ea96d1f8bd633b7538d4461edd4c9f289b1d8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 14/45] fix: outlier detection accepts series without outliers

---
 anticipy/forecast_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index b3d3009..541e559 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1403,6 +1403,9 @@ def get_model_outliers(df, window=3):
     dfo['is_spike'] = (dfo.mean_group_diff_abs -
                        dfo.mean_group_diff.abs()) > (thr_hi - thr_low) / 2
 
+    if not dfo.ischange.any():  # No outliers - nothing to do
+        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
+
     # Get the outlier start and end points for each group
     df_outl = (
         dfo.loc[dfo.ischange.astype(bool)].groupby('change_group').apply(
@@ -1411,9 +1414,6 @@ def get_model_outliers(df, window=3):
                  'outl_end': x[x_col].iloc[-1]})).reset_index()
     )
 
-    if df_outl.empty:  # No outliers - nothing to do
-        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
-
     dfo = dfo.merge(df_outl, how='left')
     # Get the start and end points in dfo
     if with_dates:
-- 
2.43.0


From 8fa3cd0671dc3f48157e82fc1f9e8eac62be85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 15/45] fix: ignored samples get no weight from other samples
 with the same x

---
 anticipy/forecast.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 17a1b0a..3273cca 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1192,7 +1192,7 @@ def run_forecast_single(df_y,
     else:
         freq = None
 
-    df_y = df_y.copy()
+    df_y = df_y.reset_index(drop=True)
     df_y_unfiltered = df_y.copy()
 
     # Filter: only actuals after date_start_actuals
@@ -1329,12 +1329,11 @@ def run_forecast_single(df_y,
     #  used for extrapolation, naive model fitting
     df_actuals_interpolated = (
         df_y_unfiltered
+            # Update weight column - null for any sample not used for fitting
+            .assign(weight=df_y.weight)
             .pipe(model_utils.interpolate_df, interpolate_y=False)
             .sort_values(['x'])
             .reset_index(drop=True)
-            # Update weight column in df_actuals_interpolated
-            .drop(columns=['weight'], errors='ignore')
-            .merge(df_y[['x', 'weight']], how='left')
     )
     df_actuals_interpolated['weight'] = \
         df_actuals_interpolated.weight.fillna(0)
-- 
2.43.0


From 6a03d088fa8474a43d3245ef1524ab8668cc3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 16/45] fix: horizons with a fraction of a month or year are
 rounded down

---
 anticipy/model_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 10db112..81b0576 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -187,6 +187,9 @@ def get_s_x_extrapolate(
         # Todo: change to dict to support more frequencies
         freq_units_per_year = dict_freq_units_per_year.get(freq_short, 365.0)
         extrapolate_units = extrapolate_years * freq_units_per_year
+        if freq_short in ['M', 'Q', 'Y', 'A']:
+            # Calendar offsets do not accept fractions
+            extrapolate_units = int(extrapolate_units)
         offset_input = {dict_dateoffset_input.get(freq_short):
                             extrapolate_units}
         date_end_forecast = date_end_actuals + \
-- 
2.43.0


From bb643a35ee34a33da98f671bebbbe93101f3870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 17/45] fix: quarterly series can be extrapolated

---
 anticipy/model_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 81b0576..69ca01a 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -109,6 +109,7 @@ dict_dateoffset_input = dict(
     Y='years',
     A='years',
     M='months',
+    Q='months',
     W='weeks',
     D='days',
     H='hours'
@@ -190,6 +191,8 @@ def get_s_x_extrapolate(
         if freq_short in ['M', 'Q', 'Y', 'A']:
             # Calendar offsets do not accept fractions
             extrapolate_units = int(extrapolate_units)
+        if freq_short == 'Q':  # There is no offset for quarters
+            extrapolate_units = 3 * extrapolate_units
         offset_input = {dict_dateoffset_input.get(freq_short):
                             extrapolate_units}
         date_end_forecast = date_end_actuals + \
-- 
2.43.0


From a5f8d00e82a886d24f06604f10cfe79cd026174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 18/45] fix: ignored samples do not influence the choice of
 additive or multiplicative composition

---
 anticipy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 69ca01a..21d83a0 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -484,6 +484,8 @@ def is_multiplicative(df, freq='M'):
     - If date information is unavailable (only x column), use additive
     - If less than 2 periods worth of data are available, use additive
     """
+    if 'weight' in df.columns:  # Samples with weight 0 must be ignored
+        df = df.loc[df.weight > 0]
     if (df.y <= 0).any():
         return False
     if 'date' not in df.columns:
@@ -492,8 +494,6 @@ def is_multiplicative(df, freq='M'):
         return False
     # Check for series size
     df_filtered = df.loc[~df.y.pipe(pd.isna)]
-    if 'weight' in df_filtered.columns:
-        df_filtered = df_filtered.loc[df_filtered.weight > 0]
     if df_filtered.index.size < 4:  # Not enough samples to fit a linear model
         return False
     df_stats = _get_mult_sum_stats(df, freq)
-- 
2.43.0


From ac8a8ab5001e09e9298adff43aa9d87459b9af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:47 +0000
Subject: [PATCH 19/45] fix: prediction intervals ignore a zero-weight sample
 that shares its date with another sample

---
 anticipy/forecast.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 3273cca..bb7304f 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1706,18 +1706,12 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
 
     if 'weight' in df_forecast.columns and (df_forecast.weight == 0).any():
 
-        # Filter out dates for outliers with weight=0
-        df_filtered_dates = (
-            df_forecast.loc[(df_forecast.weight > 0) &
-                            (df_forecast.is_actuals)]
-            [['date', 'source']]
-        )
-
-        # Take filtered actuals
+        # Take actuals, filter out outliers with weight=0
         df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
                                                 ~df_forecast.y.isnull()]
-        df_actuals = (df_actuals_unfiltered[['date', 'y']]
-                      .merge(df_filtered_dates, how='inner')
+        df_actuals = (df_actuals_unfiltered
+                      .loc[df_actuals_unfiltered.weight > 0]
+                      [['date', 'y']]
                       .rename({'y': 'actuals'}, axis=1)
                       )
         date_last_actuals = df_actuals.date.max()
-- 
2.43.0


From 9faa4ea8bfdea6d1114dfad516c118e03281bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:14 +0000
Subject: [PATCH 20/45] fix: weekday naive model covers gaps in series with
 irregular steps

---
 anticipy/forecast_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 541e559..9f8719c 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -653,7 +653,10 @@ def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
         # df_actuals_model.loc[df_actuals_model.x.isin(a_x)]
         # Using merge rather than simple filtering to account for
         #  dates with multiple samples
-        df_actuals_model.merge(df_out_tmp, how='inner')
+        # Match by date only: x is interpolated in df_actuals where there are
+        #  gaps, which may not match the x of the date, e.g. in monthly series
+        df_actuals_model.drop(columns='x')
+        .merge(df_out_tmp[['date', 'x']], how='inner', on='date')
         .sort_values('x')
     )
     df_out = (
-- 
2.43.0


From b59d7465ec48b7f8a2866b300a734205b5cbfea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 21/45] fix: outlier detection does not depend on where x
 starts, or on whole x

---
 anticipy/forecast_models.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 9f8719c..37b6ce7 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1431,9 +1431,6 @@ def get_model_outliers(df, window=3):
                             (dfo.date >= pd.to_datetime(dfo.outl_start)) &
                             (dfo.date <= pd.to_datetime(dfo.outl_end)))
     else:
-        # For non-date x values, we fill na's and convert to int
-        dfo['outl_start'] = dfo.outl_start.fillna(0).astype(int)
-        dfo['outl_end'] = dfo.outl_end.fillna(0).astype(int)
         # Create the mask for spikes and steps
         dfo['mask_spike'] = (dfo['is_spike'] &
                              (dfo.x >= dfo.outl_start) &
-- 
2.43.0


From 655b5de73227e4fa61c3e8696d0f5575281e5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 22/45] fix: gap filling accepts tables with a repeated index

---
 anticipy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 21d83a0..6c73adb 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -367,8 +367,8 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
         if s_date_diff.pipe(pd.isnull).all():
             s_date_diff_first = None
         else:
-            s_date_diff_first = s_date_diff.loc[s_date_diff.first_valid_index(
-            )]
+            # Index labels may be repeated, so we look up by position
+            s_date_diff_first = s_date_diff.dropna().iloc[0]
         freq = detect_freq(df)
         # If space between samples is constant, no interpolation is required
         # Exception: in sparse series with date gaps, we can randomly get
-- 
2.43.0


From 2ba03ea4c7d18955eb745fe10bc4d82c4ab0fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 23/45] fix: png plots work without an explicit size

---
 anticipy/forecast_plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index a8df364..134c670 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -93,7 +93,9 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     act_col = '#00BFC4'
     for_col = '#F8766D'
     plt.style.use('ggplot')
-    figsize = (width / dpi, height / dpi)
+    # Without a size, use the default of matplotlib
+    figsize = None if width is None or height is None \
+        else (width / dpi, height / dpi)
 
     # Clean actuals - weights do not get plotted
     df_fcast = df_fcast.loc[df_fcast.model != 'weight']
-- 
2.43.0


From 3824e36a9b57fb45f08e1a99568397cf17cea3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 24/45] fix: png plots show the requested prediction interval

---
 anticipy/forecast_plot.py | 46 +++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 134c670..442fe08 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -54,7 +54,9 @@ except ImportError:
 def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
                                 width=None, height=None, title=None, dpi=70,
                                 show_legend=True,
-                                include_interval=False):
+                                include_interval=False,
+                                pi_q1=5,
+                                pi_q2=20):
     """
     Creates matplotlib plot from forecast dataframe
 
@@ -83,6 +85,10 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     :type dpi: int
     :param show_legend: Indicates whether legends will be displayed
     :type show_legend: bool
+    :param pi_q1: Percentile for outer prediction interval (defaults to 5%-95%)
+    :type pi_q1: int
+    :param pi_q2: Percentile for inner prediction interval (defaults to 20%-80%)
+    :type pi_q2: int
 
     :return: The plot
     :rtype: matplotlib plot instance
@@ -125,27 +131,21 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
             df_fcast.loc[source_filt & ~df_fcast['is_actuals'], 'y'],
             color=for_col, marker='None', linestyle='solid', label='Forecast')
 
-        # Fill area between 5th and 95th prediction interval
-        if include_interval and \
-                ('q5' in df_fcast.columns) and ('q95' in df_fcast.columns):
-            where_to_fill = (source_filt &
-                             (~df_fcast['is_actuals']) &
-                             (~df_fcast['q5'].isnull()) &
-                             (~df_fcast['q95'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q5'], df_fcast['q95'],
-                            where=where_to_fill,
-                            facecolor=for_col, alpha=0.2)
-
-        if include_interval and\
-                ('q20' in df_fcast.columns) and ('q80' in df_fcast.columns):
-            # Fill area between 20th and 80th prediction interval
-            where_to_fill_2 = (source_filt &
-                               (~df_fcast['is_actuals']) &
-                               (~df_fcast['q20'].isnull()) &
-                               (~df_fcast['q80'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q20'], df_fcast['q80'],
-                            where=where_to_fill_2,
-                            facecolor=for_col, alpha=0.2)
+        for pi_q in [pi_q1, pi_q2]:
+            # Fill prediction interval area
+            str_q_low = 'q{}'.format(pi_q)
+            str_q_hi = 'q{}'.format(100 - pi_q)
+            if include_interval and \
+                    (str_q_low in df_fcast.columns) and \
+                    (str_q_hi in df_fcast.columns):
+                where_to_fill = (source_filt &
+                                 (~df_fcast['is_actuals']) &
+                                 (~df_fcast[str_q_low].isnull()) &
+                                 (~df_fcast[str_q_hi].isnull()))
+                ax.fill_between(df_fcast.index, df_fcast[str_q_low],
+                                df_fcast[str_q_hi],
+                                where=where_to_fill,
+                                facecolor=for_col, alpha=0.2)
 
         if subplots:
             # Set the title of each subplot as per source name
@@ -434,7 +434,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
             fig = _matplotlib_forecast_create(df_fcast, subplots, sources,
                                               nrows, ncols, width, height,
                                               title, dpi, show_legend,
-                                              include_interval)
+                                              include_interval, pi_q1, pi_q2)
 
             path = '{}.png'.format(path)
             dirname, fname = os.path.split(path)
-- 
2.43.0


From 4c697bb954a86703338dada7317a0c3d99176d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 25/45] fix: png plots draw the interval whatever the row order

---
 anticipy/forecast_plot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 442fe08..b30e44c 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -138,12 +138,13 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
             if include_interval and \
                     (str_q_low in df_fcast.columns) and \
                     (str_q_hi in df_fcast.columns):
-                where_to_fill = (source_filt &
-                                 (~df_fcast['is_actuals']) &
-                                 (~df_fcast[str_q_low].isnull()) &
-                                 (~df_fcast[str_q_hi].isnull()))
-                ax.fill_between(df_fcast.index, df_fcast[str_q_low],
-                                df_fcast[str_q_hi],
+                # Rows of other sources may be in between, and would split
+                # the area
+                df_fill = df_fcast.loc[source_filt & ~df_fcast['is_actuals']]
+                where_to_fill = ((~df_fill[str_q_low].isnull()) &
+                                 (~df_fill[str_q_hi].isnull()))
+                ax.fill_between(df_fill.index, df_fill[str_q_low],
+                                df_fill[str_q_hi],
                                 where=where_to_fill,
                                 facecolor=for_col, alpha=0.2)
 
-- 
2.43.0


From 683ecf5cf494325f31b006fc83e5f7b1653d7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 26/45] fix: jupyter plots return a success code

---
 anticipy/forecast_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index b30e44c..a1a980d 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -471,7 +471,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
                                           show_legend,
                                           add_rangeslider,
                                           include_interval, pi_q1, pi_q2)
-            return py.offline.iplot(fig, show_link=False)
+            py.offline.iplot(fig, show_link=False)
         else:
             logger.error('Please make sure that both plotly and ipython '
                          'libraries are installed to enable this feature.')
-- 
2.43.0


From 2ff75ee38e770302e68f972bc019ab548b06f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 27/45] fix: html plots fit any number of sources

---
 anticipy/forecast_plot.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index a1a980d..af172c3 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -223,6 +223,12 @@ def _plotly_forecast_create(df_fcast, subplots, sources, nrows, ncols,
                              'install plotly, then import the library'
 
     vertical_spacing = 50. / height if height is not None else 0.1
+    horizontal_spacing = 0.08
+    # Leave room for the panels if there are many rows or columns
+    if nrows > 1:
+        vertical_spacing = min(vertical_spacing, 0.5 / (nrows - 1))
+    if ncols > 1:
+        horizontal_spacing = min(horizontal_spacing, 0.5 / (ncols - 1))
 
     if subplots:
         titles = map(str, sources)
@@ -231,7 +237,7 @@ def _plotly_forecast_create(df_fcast, subplots, sources, nrows, ncols,
             cols=ncols,
             subplot_titles=list(titles),
             print_grid=False,
-            horizontal_spacing=0.08,
+            horizontal_spacing=horizontal_spacing,
             vertical_spacing=vertical_spacing)
         margin_top = 60
     else:
-- 
2.43.0


From 0722fb2bbf2b076e81059293ca1b7dae3d7ad473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 28/45] fix: dummy models with the same name do not share their
 cached mask

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 37b6ce7..f1fca78 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1624,8 +1624,9 @@ def get_model_dummy(name, dummy, **kwargs):
 
 
     """
-    mask_name = 'mask_' + name
     f_dummy = _get_f_dummy(dummy)
+    # Different dummies may share a name, but not their cached mask
+    mask_name = 'mask_{}_{}'.format(name, id(f_dummy))
     _validate_f_dummy(f_dummy)
     f_model_dummy = _get_f_model_dummy(f_dummy, mask_name)
     dict_f_cache = {mask_name: f_dummy}
-- 
2.43.0


From 551136b3ff579f5011013a0a950544b558b99084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 29/45] fix: models are not fitted if a validation function
 returns False

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index f1fca78..723ebb1 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -510,7 +510,8 @@ class ForecastModel:
                         for f_validate_input in self.l_f_validate_input]
         except AssertionError:
             return False
-        return True
+        # Validation functions that rely on assertions return None
+        return all(result is None or result for result in l_result)
 
     def init_cache(self, a_x, a_date):
         dict_cache_vars = dict()
-- 
2.43.0


From 5a24fd515720e642bc219cee7f54a775240b7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 30/45] fix: naive models can be composed with models that use
 cached variables

---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 723ebb1..c54ad55 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -570,7 +570,8 @@ model_constant = ForecastModel(
 # regression. We still pass it to forecast.fit_model() for consistency
 # with the rest of the library
 
-def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_naive(
+        a_x, a_date, params, is_mult=False, df_actuals=None, **kwargs):
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
     df_out_tmp = pd.DataFrame({'date': a_date, 'x': a_x})
@@ -620,7 +621,8 @@ def _fillna_wday(df):
     return df_out
 
 
-def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_snaive_wday(
+        a_x, a_date, params, is_mult=False, df_actuals=None, **kwargs):
     """Naive model - takes last valid weekly sample"""
     if df_actuals is None:
         raise ValueError('model_snaive_wday requires a df_actuals argument')
-- 
2.43.0


From 6fc0ca64dfa5ed73f24743e282253bd4e5e436be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 31/45] fix: fixed models keep the input checks and actuals of
 the original

---
 anticipy/forecast_models.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index c54ad55..31192b0 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1306,7 +1306,10 @@ def get_fixed_model(forecast_model, params_fixed, is_mult=False):
         forecast_model.name + '_fixed', 0,
         f_model=lambda a_x, a_date, params, is_mult=is_mult, **kwargs:
         forecast_model.f_model(
-            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult))
+            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult,
+            **kwargs),
+        l_f_validate_input=lambda a_x, a_y, a_date:
+        forecast_model.validate_input(a_x, a_y, a_date))
 
 
 def get_iqr_thresholds(s_diff, low=0.25, high=0.75):
@@ -1866,7 +1869,8 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
     def f_model_fixed(a_x, a_date, params, is_mult=False, **kwargs):
         params_long = l_params_fixed
         params_long[i_null] = params
-        return forecast_model.f_model(a_x, a_date, params_long, is_mult)
+        return forecast_model.f_model(
+            a_x, a_date, params_long, is_mult, **kwargs)
 
     def f_init_params_fixed(a_x=None, a_y=None, a_date=None, is_mult=False):
         # return params short
@@ -1881,12 +1885,16 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
         bounds_max_short = np.array(bounds_max)[i_null]
         return bounds_min_short, bounds_max_short
 
+    def f_validate_input_fixed(a_x, a_y, a_date):
+        return forecast_model.validate_input(a_x, a_y, a_date)
+
     model_result = ForecastModel(
         name,
         n_params,
         f_model_fixed,
         f_init_params_fixed,
-        f_bounds_fixed)
+        f_bounds_fixed,
+        l_f_validate_input=f_validate_input_fixed)
     return model_result
 
 
-- 
2.43.0


From 39b75b9b91517d8ad911eddb66f055dd1b4af420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 32/45] fix: automatic composition works for any x and when the
 trend cannot be fitted

---
 anticipy/model_utils.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 6c73adb..95d8368 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -417,27 +417,15 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
 # Functions to check for multiplicative/additive model composition
 def _fit_linear(df):
     """Fit linear model based on df"""
-    from anticipy.forecast import fit_model, extrapolate_model
+    from anticipy.forecast import fit_model
     from anticipy.forecast_models import model_linear
 
     assert df.index.size >= 4, 'Linear model requires 4+ samples'
     dict_result = fit_model(model_linear, df)
     params = dict_result.get('metadata').params.iloc[0]
-    df_pred = extrapolate_model(
-        model_linear, params, df.x.min(), df.x.max() + 1,
-        extrapolate_years=0)
-
-    df_out = (
-        df.merge(
-            df_pred
-                .rename(columns=dict(y='y_pred'))
-                # RENAME AXIS ONLY WORKS FOR NUMERIC SERIES
-                #  - TIME SERIES WOULD BE DATE
-                .rename_axis('x')
-                .reset_index(),
-            how='left')
-    )
-    return df_out
+    if len(params) == 0:  # No solution found
+        return df.assign(y_pred=np.NaN)
+    return df.assign(y_pred=model_linear(df.x.values, None, params))
 
 
 def _get_mult_sum_stats(df, freq='M'):
-- 
2.43.0


From 17299465e5175efcd77229a21cb0e2f4a4bfba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 33/45] fix: spike model without data proposes one value per
 parameter

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 31192b0..8b3a2e9 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -689,7 +689,7 @@ def _f_init_params_spike(a_x=None, a_y=None, a_date=None, is_mult=False):
     """ params are spike height, x start, x end """
     # if not a_y.any():
     if a_y is None:
-        return [1] + np.random.uniform(0, 1, 1) + [2]
+        return np.concatenate([[1], np.random.uniform(0, 1, 1), [2]])
     else:
         diffs = np.diff(a_y)
         # if diffs:
-- 
2.43.0


From 0338b98be23c21d2138431e45711353fffab2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 34/45] fix: command-line application writes into an output
 folder given without trailing slash

---
 anticipy/app.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index 05511cc..46eae84 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -56,7 +56,9 @@ def run_forecast_app(path_in, path_out=None, forecast_years=2.0,
         path_out = path_in
     assert os.path.exists(path_out)
 
-    path_folder = os.path.dirname(path_out)
+    # An output folder may be given with or without a trailing separator
+    path_folder = path_out if os.path.isdir(path_out) \
+        else os.path.dirname(path_out)
 
     logger_info('dir name', path_folder)
 
-- 
2.43.0


From 0d4feda6b0b8e0a275c1cad869355e2a09615fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 35/45] fix: run_l_forecast skips inputs with an empty table

---
 anticipy/forecast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index bb7304f..480637e 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1513,7 +1513,11 @@ def run_l_forecast(l_fcast_input,
             find_outliers=find_outliers,
             use_cache=use_cache
         )
-        l_dict_result += [dict_result]
+        if dict_result is not None:  # None if input table is empty
+            l_dict_result += [dict_result]
+
+    if not l_dict_result:
+        return None
 
     # Generate output
     return aggregate_forecast_dict_results(l_dict_result)
-- 
2.43.0


From b4fa7dc56199d284236eb21e335b89fb0cc0072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 36/45] fix: run_forecast does not fail for a series without
 actuals after date_start_actuals

---
 anticipy/forecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 480637e..9e8a9bb 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1740,7 +1740,9 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     if df_residuals.empty:  # May happen if no forecast could be generated
         logger.warning(
             'No forecast data for source %s',
-            df_forecast.source.head(1).iloc[0])
+            # The table may have no rows at all,
+            #  e.g. if there are no actuals after date_start_actuals
+            df_forecast.source.iloc[0] if df_forecast.index.size else None)
         return df_actuals_unfiltered[l_cols + ['is_actuals', 'model', 'y']]
 
     # Generate table with prediction interval
-- 
2.43.0


From ca8ee72f9746f5b26fb106602f3d5a590f76c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 37/45] fix: prediction intervals of quarterly and hourly
 series widen once per widening period

---
 anticipy/forecast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 9e8a9bb..d3c0133 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1578,10 +1578,14 @@ def _get_days_from_freq(freq):
         return 1
     elif freq.startswith('Y'):
         return 365
+    elif freq.startswith('Q'):
+        return 91
     elif freq.startswith('M'):
         return 30
     elif freq.startswith('W'):
         return 7
+    elif freq.startswith('H'):
+        return 1. / 24
     else:
         return 1
 
-- 
2.43.0


From dd3c50552cff165e7fd0c2e5b1f2463f06a6b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 38/45] fix: a naive model without a comparable sample does not
 win over fitted models

---
 anticipy/forecast.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index d3c0133..5fd3608 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -574,7 +574,12 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
             status = 'FIT'
 
             # Process results
-            aic_c = model_utils.get_aic_c(cost, len(df_y), n_params)
+            if pd.isnull(a_residuals).all():
+                # No sample to compare with, e.g. because the model needs
+                #  samples from a previous week: any other fit is preferred
+                aic_c = np.inf
+            else:
+                aic_c = model_utils.get_aic_c(cost, len(df_y), n_params)
 
             df_result = _get_df_fit_model(
                 source,
-- 
2.43.0


From 719636534fdc44c3c0405621df3114d4dc1fe099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 39/45] fix: samples that share an x keep their order, with or
 without a source column

---
 anticipy/forecast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 5fd3608..0dfd164 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -400,7 +400,9 @@ def normalize_df(df_y,
     df_result = df_result[[c for c in [
         'date', 'source', 'x', 'y', 'weight'] if c in df_result.columns]]
     sort_columns = ['source', 'x'] if 'source' in df_result.columns else ['x']
-    df_result = df_result.sort_values(sort_columns).reset_index(drop=True)
+    # Stable sort: samples that share an x keep their order
+    df_result = df_result.sort_values(
+        sort_columns, kind='stable').reset_index(drop=True)
     return df_result
 
 
@@ -1337,7 +1339,7 @@ def run_forecast_single(df_y,
             # Update weight column - null for any sample not used for fitting
             .assign(weight=df_y.weight)
             .pipe(model_utils.interpolate_df, interpolate_y=False)
-            .sort_values(['x'])
+            .sort_values(['x'], kind='stable')
             .reset_index(drop=True)
     )
     df_actuals_interpolated['weight'] = \
-- 
2.43.0


From d5d52d7988eef35a6dfdc8b3ea75fa24089da777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 40/45] fix: gaps of descending dates with a constant step are
 filled

---
 anticipy/model_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 95d8368..6f9ff6b 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -368,7 +368,8 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
             s_date_diff_first = None
         else:
             # Index labels may be repeated, so we look up by position
-            s_date_diff_first = s_date_diff.dropna().iloc[0]
+            # Dates may be in descending order
+            s_date_diff_first = abs(s_date_diff.dropna().iloc[0])
         freq = detect_freq(df)
         # If space between samples is constant, no interpolation is required
         # Exception: in sparse series with date gaps, we can randomly get
-- 
2.43.0


From 00c9fe6217792cb9f47d35a9a1b36aaa7575eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 41/45] fix: gaps of a numeric series with fractional x are
 filled, and no sample is lost

---
 anticipy/model_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 6f9ff6b..875c3ab 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -346,7 +346,8 @@ def detect_freq(a_date):
 def interpolate_df(df, include_mask=False, interpolate_y=True):
     # In a dataframe with date gaps, replace x-axis gaps with interpolation
     if 'date' not in df.columns:  # interpolate by x column
-        if df.x.drop_duplicates().diff().nunique() <= 1:  # Regular intervals - no gaps
+        # Regular intervals - no gaps
+        if df.x.drop_duplicates().sort_values().diff().nunique() <= 1:
             return df
         else:
             # With duplicate samples, gap filling not supported
@@ -354,10 +355,17 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
                 raise ValueError(
                     'Cannot fill gaps on series with multiple '
                     'samples per x')
+            # Values of x may be fractions
+            i_x = df.x.min() + np.arange(int(df.x.max() - df.x.min()) + 1)
+            # Gap filling would lose any sample that is not a whole number of
+            # steps away from the first one
+            if not df.x.isin(i_x).all():
+                logger.warning('Cannot fill gaps, x does not match a grid '
+                               'with a step of 1')
+                return df
             df_result = (
                 df.set_index('x')
-                    .reindex(
-                    pd.RangeIndex(df.x.min(), df.x.max() + 1, name='x'))
+                    .reindex(pd.Index(i_x, name='x'))
                     .pipe(lambda x: x.interpolate() if interpolate_y else x)
                     .reset_index()
             )
-- 
2.43.0


From 93839ce2715305411ef01a5229ac4b47619c9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 42/45] fix: get_s_aic_c_best_result_key returns the key of the
 best result for any input

---
 anticipy/model_utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 875c3ab..40a30be 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -289,16 +289,12 @@ def get_aic_c(fit_error, n, n_params):
 
 
 def get_s_aic_c_best_result_key(s_aic_c):
-    # Required because aic_c can be -inf, that value is not compatible with
-    # pd.Series.argmin()
-    if s_aic_c.empty or s_aic_c.isnull().all():
+    # Returns the key of the lowest aic_c, the first one if there are several
+    # aic_c can be -inf, for several results
+    s_aic_c = s_aic_c.dropna()
+    if s_aic_c.empty:
         return None
-    if (s_aic_c.values == -np.inf).any():
-        (key_best_result,) = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
-        key_best_result = s_aic_c.index[key_best_result.min()]
-    else:
-        key_best_result = s_aic_c.argmin()
-    return key_best_result
+    return s_aic_c.index[s_aic_c.values.argmin()]
 
 
 def detect_freq(a_date):
-- 
2.43.0


From 32c1348a1f9b2a39c7d7d72aa0f5b89ce4d46817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 43/45] fix: metadata of models with scaled x report the actual
 range of x

---
 anticipy/forecast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0dfd164..3a63360 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -501,8 +501,9 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
         date_start_actuals = i_date.min().date()
         date_end_actuals = i_date.max().date()
     else:
-        date_start_actuals = a_x.min()
-        date_end_actuals = a_x.max()
+        # The model may be fitted on scaled values of x
+        date_start_actuals = df_y[col_name_x].min()
+        date_end_actuals = df_y[col_name_x].max()
     actuals_x_range = '{}::{}'.format(date_start_actuals, date_end_actuals)
 
     if df_y.empty:
-- 
2.43.0


From 272cc01dbe7a698da20b56705be10319532c64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 44/45] fix: columns that are not named as input do not clash
 with the normalized names

---
 anticipy/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 3a63360..0c01ee8 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -343,6 +343,9 @@ def normalize_df(df_y,
         col_name_date: 'date',
         col_name_source: 'source'
     }
+    # Only the named columns are used - any other column may have one of the
+    # normalized names
+    df_y = df_y[[c for c in df_y.columns if c in rename_col_dict]]
     df_y = df_y.copy().rename(rename_col_dict, axis=1)
 
     # Placeholder - need to replace all references to col_name_z with z
-- 
2.43.0


From 7e5efd807af96f2137c6e98317112036edb391da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 45/45] fix: samples without a weight do not enter prediction
 intervals

---
 anticipy/forecast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0c01ee8..9696052 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1723,9 +1723,10 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     else:
         l_cols = ['date']
 
-    if 'weight' in df_forecast.columns and (df_forecast.weight == 0).any():
+    if 'weight' in df_forecast.columns:
 
-        # Take actuals, filter out outliers with weight=0
+        # Take actuals, filter out outliers with weight=0, and samples without
+        #  a weight - neither are used for fitting
         df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
                                                 ~df_forecast.y.isnull()]
         df_actuals = (df_actuals_unfiltered
-- 
2.43.0

