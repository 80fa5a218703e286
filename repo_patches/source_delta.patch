From ee5f1a745502f590e11ecea90be9d6d90defdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 01/20] fix: energy_from_power returns NaN instead of raising
 IndexError when no valid power remains

---
 rdtools/normalization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 23784a0..9469c86 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -485,6 +485,10 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     union_index = time_series.index.union(output_dummy.index)
     time_series = time_series.dropna()
 
+    if len(time_series) == 0:
+        # no valid data anywhere, so there is no interval with a known value
+        return pd.Series(np.nan, index=output_dummy.index)[1:]
+
     values = time_series.values
 
     # Identify gaps (including from nans) bigger than max_time_delta
-- 
2.43.0


From 0286c06d6f5ae7f913eaddb5efb9323e6ce9b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:53 +0000
Subject: [PATCH 02/20] fix: aggregation_insol ignores the weight of points
 without a normalized energy

---
 rdtools/aggregation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rdtools/aggregation.py b/rdtools/aggregation.py
index 4116c91..4dc6919 100644
--- a/rdtools/aggregation.py
+++ b/rdtools/aggregation.py
@@ -22,7 +22,11 @@ def aggregation_insol(energy_normalized, insolation, frequency='D'):
     aggregated : pandas.Series
         Insolation weighted average, aggregated at frequency
     '''
-    aggregated = (insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \
-        insolation.resample(frequency, origin='start_day').sum()
+    weighted = insolation * energy_normalized
+    # points without a normalized energy must not contribute weight either
+    weights = insolation.reindex(weighted.index).where(weighted.notna())
+
+    aggregated = weighted.resample(frequency, origin='start_day').sum() / \
+        weights.resample(frequency, origin='start_day').sum()
 
     return aggregated
-- 
2.43.0


From 66802de7414f853d517633cc505a700bb0414a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:17 +0000
Subject: [PATCH 03/20] fix: energy_from_power does not extend instantaneous
 power past the last valid measurement

---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 9469c86..0216bb4 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -511,7 +511,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
         # interpolate with trapz sum
-        time_series = time_series.interpolate(method='time')
+        time_series = time_series.interpolate(method='time', limit_area='inside')
         time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
-- 
2.43.0


From 96294053dd3be7a8cb2cc076a2259868a01e9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:29 +0000
Subject: [PATCH 04/20] fix: energy_from_power omits only the pieces inside a
 gap, not the interval after it

---
 rdtools/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 0216bb4..1d4144c 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -512,13 +512,11 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     if series_type == 'instantaneous':
         # interpolate with trapz sum
         time_series = time_series.interpolate(method='time', limit_area='inside')
-        time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
     elif series_type == 'right_labeled':
         # bfill and rectangular sum
         time_series = time_series.bfill()
-        time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = values[1:] * t_diffs_hours
     else:
@@ -526,6 +524,8 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
                          "not '{}'".format(series_type))
 
     series_sum = pd.Series(data=np.insert(series_sum, 0, np.nan), index=time_series.index)
+    # leave out exactly the pieces that lie in a gap
+    series_sum[gap_mask] = np.nan
 
     aggregated = series_sum.resample(
         target_frequency, closed="right", label="right", origin="start"
-- 
2.43.0


From a7d7ec64cde2ff92acce8578d4b5a56d663671d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:07 +0000
Subject: [PATCH 05/20] fix: directional_tukey_filter uses k for the lower
 fence too

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..1716546 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1029,7 +1029,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From c8dbb782ad189f951f2a7d3df0aedfe34a7d44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:44 +0000
Subject: [PATCH 06/20] fix: degradation_year_on_year counts the start point of
 every used pair in usage_of_points

---
 rdtools/degradation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..743869a 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -286,7 +286,9 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
     yoy_result = df.yoy.dropna()
 
-    df_right = df.set_index(df.dt_right).drop_duplicates('dt_right')
+    # only pairs that yield a slope count as usage of their start point
+    df_used = df[df.yoy.notnull()]
+    df_right = df_used.set_index(df_used.dt_right).drop_duplicates('dt_right')
     df['usage_of_points'] = df.yoy.notnull().astype(int).add(
                 df_right.yoy.notnull().astype(int), fill_value=0)
 
-- 
2.43.0


From e26952640ddc1a4c6fbe6ac01de2f59cd561c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 07/20] fix: OLS and classical decomposition accept a constant
 energy series

---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 743869a..a83fa0b 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -43,7 +43,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
     df['years'] = df.days / 365.0
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_normalized,
@@ -137,7 +137,7 @@ def degradation_classical_decomposition(energy_normalized,
     df['energy_ma'] = energy_ma
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_ma, exog=df.loc[:, ['const', 'years']],
-- 
2.43.0


From 1b0e9d6123d905ad9e5e22e270c41910f66d6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 08/20] fix: OLS and classical decomposition do not rename the
 caller's series

---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index a83fa0b..f8a6ec0 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,7 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
+    energy_normalized = energy_normalized.rename('energy_normalized')
     df = energy_normalized.to_frame()
 
     # calculate a years column as x value for regression, ignoring leap years
@@ -109,7 +109,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
+    energy_normalized = energy_normalized.rename('energy_normalized')
     df = energy_normalized.to_frame()
 
     df_check_freq = df.copy()
-- 
2.43.0


From 502b04648f9674a2358a24d8eb01a7d3787d85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 09/20] fix: tie correction of the Mann-Kendall variance is
 subtracted

---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index f8a6ec0..92ee970 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -403,7 +403,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From 004ab38691b2b0bfdba8415572f011fbd822cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:33 +0000
Subject: [PATCH 10/20] fix: availability outage at the start of the data does
 not wrap around to the last meter reading

---
 rdtools/availability.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 06d5778..6103f45 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -438,8 +438,13 @@ class AvailabilityAnalysis:
             outage_expected_energy = self.energy_expected_rescaled[start:end]
 
             # self.cumulative_energy[start] is the first value in the outage.
-            # so to get the starting energy, need to get previous value:
-            start_minus_one = all_times[all_times.get_loc(start)-1]
+            # so to get the starting energy, need to get previous value
+            # (unknown if the data starts in the outage):
+            start_loc = all_times.get_loc(start)
+            if start_loc > 0:
+                energy_start = self.energy_cumulative.iloc[start_loc - 1]
+            else:
+                energy_start = np.nan
 
             data = {
                 'start': start,
@@ -450,7 +455,7 @@ class AvailabilityAnalysis:
                 'error_lower': self.interp_lower(daylight_intervals),
                 'error_upper': self.interp_upper(daylight_intervals),
                 'energy_expected': outage_expected_energy.sum(),
-                'energy_start': self.energy_cumulative[start_minus_one],
+                'energy_start': energy_start,
                 'energy_end': self.energy_cumulative[end],
             }
             outage_data.append(data)
-- 
2.43.0


From 38234425b8067b2a9a261e0f360a15a5781ef3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 11/20] fix: availability time series of an outage includes the
 energy of its first interval

---
 rdtools/availability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 6103f45..7394026 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -503,12 +503,13 @@ class AvailabilityAnalysis:
         # scaling the expected power signal to match the actual
         lost_power_full = pd.Series(0, index=self.loss_subsystem.index, dtype=float)
         expected_power = self.power_expected
+        expected_energy = rdtools.energy_from_power(expected_power)
         corrected_cumulative_energy = self.energy_cumulative.copy()
         for i, row in self.outage_info.iterrows():
             start = row['start']
             end = row['end']
             subset = expected_power.loc[start:end].copy()
-            subset_energy = rdtools.energy_from_power(subset)
+            subset_energy = expected_energy.loc[start:end]
             loss_fill = subset * row['loss'] / subset_energy.sum()
             lost_power_full.loc[subset.index] += loss_fill
 
-- 
2.43.0


From a308d9f81e09d3bea678f5b84f4022fa3cfc4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:32 +0000
Subject: [PATCH 12/20] fix: TrendAnalysis does not overwrite missing values in
 the caller's ad hoc filter

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..97e4c56 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,6 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter = ad_hoc_filter.copy()
                 ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
 
             if not filter_components.index.equals(ad_hoc_filter.index):
@@ -709,6 +710,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.copy()
                 ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
 
             if not filter_components_aggregated.index.equals(
-- 
2.43.0


From aebc9db4e188b7b208d0bea6f42e8cb381155394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:55 +0000
Subject: [PATCH 13/20] fix: filter parameter dictionaries validate names given
 by setdefault and |=

---
 rdtools/analysis_chains.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 97e4c56..329867b 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -1290,6 +1290,15 @@ class ValidatedFilterDict(dict):
                 raise KeyError(self._err_msg.format(key))
         super(ValidatedFilterDict, self).update(*args, **kwargs)
 
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def _validate_keys(self):
         for key in self.keys():
             if key not in self.valid_keys:
-- 
2.43.0


From 94bc97096effd75ab86248e1662b14ecdd424fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 14/20] fix: clear-sky temperature at the date line and the
 south pole uses the nearest grid cell

---
 rdtools/clearsky_temperature.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index ebe617f..e9a18a2 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -78,6 +78,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
         lon_temp += 360
     lon_index = round(float(lons) * float(lon_temp) / 360.0)
     lat_index = round(float(lats) * (90.0 - float(latitude)) / 180.0)
+    # longitude is circular, latitude is not
+    lon_index = lon_index % lons
+    lat_index = min(lat_index, lats - 1)
 
     df = pd.DataFrame(index=dt_daily)
     df['month'] = df.index.month
-- 
2.43.0


From d68b944d35b92c1c85377fe8b2ec0475165d6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:26 +0000
Subject: [PATCH 15/20] fix: xgboost_clip_filter applies the clipping band of a
 day only to that day

---
 rdtools/filtering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 1716546..e628669 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -884,7 +884,9 @@ def xgboost_clip_filter(power_ac, mounting_type="fixed"):
     power_ac_df = _calculate_xgboost_model_features(power_ac_df, sampling_frequency)
     # Add back in XGB predictions for the original dataframe
     power_ac_df["xgb_predictions"] = xgb_predictions.astype(bool)
-    power_ac_df_clipping = power_ac_df[power_ac_df["xgb_predictions"].fillna(False)]
+    power_ac_df_clipping = power_ac_df[["scaled_value"]].where(
+        power_ac_df["xgb_predictions"].fillna(False)
+    )
     # Make everything between the
     # max and min values found for clipping each day as clipping.
     power_ac_df_clipping_max = power_ac_df_clipping["scaled_value"].resample("D").max()
-- 
2.43.0


From 42d24ae0db5321020880afe5ffc6af032428d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:03 +0000
Subject: [PATCH 16/20] fix: base CODS results on the best initial fit, not the
 last one fitted

---
 rdtools/soiling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..b3dbda7 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1874,6 +1874,9 @@ class CODSAnalysis():
         ci_low_edge = (50 - confidence_level / 2) / 100
         ci_high_edge = (50 + confidence_level / 2) / 100
 
+        # Best estimates are based on the best of the initial model fits
+        df_out = result_df
+
         # Concatenate boostrap model fits
         concat_tot_mod = pd.concat([kdf.total_model for kdf in bt_kdfs], axis=1)
         concat_SR = pd.concat([kdf.soiling_ratio for kdf in bt_kdfs], axis=1)
-- 
2.43.0


From 88dd9d36ca463150e7a8441bd6ab25c2932d6633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:04 +0000
Subject: [PATCH 17/20] fix: CODS bootstrap crashed when an initial fit failed
 or was not stationary

---
 rdtools/soiling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index b3dbda7..687fb96 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1785,8 +1785,12 @@ class CODSAnalysis():
         # components, by perturbing amplitude and phase shift
         # Number of samples per fit:
         sample_nr = int(reps / nr_models)
-        list_of_SCs = [list_of_df_out[m].seasonal_component
-                       for m in range(nr_models) if weights[m] > 0]
+        # Only fits with stationary residuals, from which there are bootstrap
+        # samples, are used:
+        list_of_SCs = [df.seasonal_component
+                       for df, r in zip(list_of_df_out, results)
+                       if r['adf_res'][1] < .05]
+        reps = all_bootstrap_samples.shape[1]
         seasonal_samples = _make_seasonal_samples(list_of_SCs,
                                                   sample_nr=sample_nr,
                                                   min_multiplier=.8,
-- 
2.43.0


From 761bae68f78278fdb55757ba34f0dc023372214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:04 +0000
Subject: [PATCH 18/20] fix: report the CODS soiling loss limit in percent for
 small soiling signals

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 687fb96..9a4fdb4 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1767,7 +1767,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From 08c095333a9025c277768cc3fde011f884f7c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:04 +0000
Subject: [PATCH 19/20] fix: CODS fits every parameter alternative, also when
 there are not exactly two

---
 rdtools/soiling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 9a4fdb4..4ad07eb 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1680,11 +1680,9 @@ class CODSAnalysis():
                                   cleaning_sensitivity_alternatives,
                                   clean_pruning_sensitivity_alternatives,
                                   forward_fill_alternatives]
-        index_list = list(itertools.product([0, 1], repeat=len(parameter_alternatives)))
-        combination_of_parameters = [[parameter_alternatives[j][indexes[j]]
-                                     for j in range(len(parameter_alternatives))]
-                                     for indexes in index_list]
-        nr_models = len(index_list)
+        combination_of_parameters = [list(combination) for combination
+                                     in itertools.product(*parameter_alternatives)]
+        nr_models = len(combination_of_parameters)
         bootstrap_samples_list, list_of_df_out, results = [], [], []
 
         # Check boostrap number
-- 
2.43.0


From 9118e754e653f42a01cfc49d0a6ca46a7c3954c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:12 +0000
Subject: [PATCH 20/20] fix: classical decomposition refuses records with
 missing data at either end

---
 rdtools/degradation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 92ee970..3cf282b 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -118,7 +118,8 @@ def degradation_classical_decomposition(energy_normalized,
     # We can use this to check for missing data and raise a ValueError.
     df_check_freq = df_check_freq.dropna()
 
-    if df_check_freq.index.freq is None:
+    # Dropping rows at either end keeps the frequency, so also compare the length.
+    if df_check_freq.index.freq is None or len(df_check_freq) < len(df):
         raise ValueError('Classical decomposition requires a regular time '
                          'series with defined frequency and no missing data.')
 
-- 
2.43.0

