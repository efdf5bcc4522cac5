From 784b6a95734be52b12bb912bf10b27fa552ed819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 01/86] fix: Normal_COV variables with a negative mean had a
 negative standard deviation

---
 pelicun/uq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..e0f4925 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1695,7 +1695,7 @@ class Normal_COV(NormalRandomVariable):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
-        std = mean * cov
+        std = np.abs(mean) * cov
         theta = np.array([mean, std])
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
-- 
2.43.0


From 8890c5dd1d0ef82650340c2c4da0efb79319cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 02/86] fix: the lognormal CDF was NaN with a non-positive
 lower truncation limit

---
 pelicun/uq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index e0f4925..630fa68 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1750,6 +1750,7 @@ class LogNormalRandomVariable(RandomVariable):
 
             # Replace NaN values
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
+            a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
 
             p_a, p_b = (
-- 
2.43.0


From 39ba08b1812529ef5743021ee87741cad6727173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 03/86] fix: truncation limits outside of the domain of a
 distribution were not refused

---
 pelicun/uq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 630fa68..d7770f0 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1438,7 +1438,9 @@ class RandomVariable(BaseRandomVariable):
           If a negative probability difference is found.
 
         """
-        if np.any((p_b - p_a) < FIRST_POSITIVE_NUMBER):
+        # note: the difference is NaN when a limit is outside of the domain
+        # of the CDF
+        if not np.all((p_b - p_a) >= FIRST_POSITIVE_NUMBER):
             msg = (
                 'The probability mass within the truncation limits is '
                 'too small and the truncated distribution cannot be '
-- 
2.43.0


From 5899397023611dd1eccde134f6266389858ec8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 04/86] fix: truncated uniform variables ignored their bounds
 and did not support one-sided truncation

---
 pelicun/uq.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index d7770f0..fadec7f 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1884,8 +1884,9 @@ class UniformRandomVariable(RandomVariable):
         if np.isnan(b):
             b = np.inf
 
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        # Apply the truncation limits; NaN limits are ignored.
+        a = np.fmax(a, self.truncation_limits[0])
+        b = np.fmin(b, self.truncation_limits[1])
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1914,8 +1915,9 @@ class UniformRandomVariable(RandomVariable):
         if np.isnan(b):
             b = np.inf
 
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        # Apply the truncation limits; NaN limits are ignored.
+        a = np.fmax(a, self.truncation_limits[0])
+        b = np.fmin(b, self.truncation_limits[1])
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From a35dfbfde7f63f95ee78661175ea331fd10df70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 05/86] fix: the multinomial inverse transform overwrote the
 uniform sample

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index fadec7f..40ab8bb 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2474,6 +2474,9 @@ class MultinomialRandomVariable(RandomVariable):
         """
         p_cum = np.cumsum(self.theta)[:-1]
 
+        # do not overwrite the array of the caller
+        values = values.copy()
+
         for i, p_i in enumerate(p_cum):
             values[values < p_i] = 10 + i
         values[values <= 1.0] = 10 + len(p_cum)
-- 
2.43.0


From ec1e3dbaa713b74d4c0ba3531d8c5a56fcecf59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 06/86] fix: mvn_orthotope_density replaced NaN values in the
 arrays of the caller

---
 pelicun/uq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 40ab8bb..564b215 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -196,12 +196,12 @@ def mvn_orthotope_density(
     if np.all(np.isnan(lower)):
         lower = -np.ones(ndim) * np.inf
     else:
-        lower = np.atleast_1d(lower)
+        lower = np.array(lower, ndmin=1)
 
     if np.all(np.isnan(upper)):
         upper = np.ones(ndim) * np.inf
     else:
-        upper = np.atleast_1d(upper)
+        upper = np.array(upper, ndmin=1)
 
     # replace None with np.inf
     lower[np.where(np.isnan(lower))[0]] = -np.inf
-- 
2.43.0


From b384729e105059588945bd15d5505846ee47e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 07/86] fix: fit_distribution_to_sample replaced lognormal
 limits of the caller with their logarithm

---
 pelicun/uq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 564b215..ce58359 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -775,8 +775,9 @@ def fit_distribution_to_sample(  # noqa: C901
 
     """
     samples = np.atleast_2d(raw_sample)
-    tr_limits = np.atleast_2d(truncation_limits)
-    det_limits = np.atleast_2d(detection_limits)
+    # copy the limits to avoid changing the arrays of the caller below
+    tr_limits = np.array(truncation_limits, ndmin=2)
+    det_limits = np.array(detection_limits, ndmin=2)
     dist_list = np.atleast_1d(distribution)
     n_dims, n_samples = samples.shape
 
-- 
2.43.0


From 16051cb3564715a0dd28077121273054c79dde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 08/86] fix: percentile fit started from zero dispersion when
 the largest percentile is the one closest to the median

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index ce58359..249a002 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1083,6 +1083,9 @@ def fit_distribution_to_percentiles(
 
     median_id = np.argmin(np.abs(percentiles_np - 0.5))
     extreme_id = np.argmax(percentiles_np - 0.5)
+    if extreme_id == median_id:
+        # all other percentiles are smaller than the one used for the median
+        extreme_id = np.argmin(percentiles_np - 0.5)
 
     for family in families:
         inits = [
-- 
2.43.0


From c9468a9b116e5c190d610be9e84addf933e9266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 09/86] fix: save_to_csv did not convert the units of tables
 with variables along their rows

---
 pelicun/file_io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 518758a..87a7e34 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -187,8 +187,9 @@ def save_to_csv(  # noqa: C901
 
         # if the orientation is 1, we might not need to scale all columns
         if orientation == 1:
-            cols_to_scale_bool = [dt in {float, int} for dt in data.dtypes]
-            cols_to_scale = data.columns[cols_to_scale_bool]
+            cols_to_scale = [
+                pd.api.types.is_numeric_dtype(dtype) for dtype in data.dtypes
+            ]
 
         labels_to_keep = []
 
@@ -213,9 +214,7 @@ def save_to_csv(  # noqa: C901
                         active_labels.append(label)  # noqa: PERF401
 
                 if len(active_labels) > 0:
-                    data.loc[np.array(active_labels), np.array(cols_to_scale)] *= (
-                        unit_factor
-                    )
+                    data.loc[active_labels, cols_to_scale] *= unit_factor
 
             labels_to_keep += active_labels
 
-- 
2.43.0


From cd148ffbc07702321e755822692f6588407c4535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 10/86] fix: is_unspecified failed on empty lists and on lists
 with several items

---
 pelicun/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..0319ee2 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -1846,7 +1846,7 @@ def is_unspecified(d: dict[str, Any], path: str) -> bool:
     value = get(d, path, default=None)
     if value is None:
         return True
-    if pd.isna(value):
+    if pd.api.types.is_scalar(value) and pd.isna(value):
         return True
     if value == {}:
         return True
-- 
2.43.0


From a7e6de639e26d3ed54f26a72d163f8e9c34c9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 11/86] fix: component rows without a direction were not read
 as direction 1

---
 pelicun/model/asset_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..53142b2 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -348,7 +348,9 @@ class AssetModel(PelicunModel):
         index_list = []
         for row in marginal_params.itertuples():
             locs = self._get_locations(str(row.Location))
-            dirs = self._get_directions(str(row.Direction))
+            dirs = self._get_directions(
+                None if pd.isna(row.Direction) else str(row.Direction)  # type: ignore
+            )
             indices = list(product((row.Index,), locs, dirs))
             num_vals = len(indices)
             for col, cmp_marginal_param in cmp_marginal_param_dct.items():
-- 
2.43.0


From 15d9ebfd2fc3db61e9de72fe81da6d1e3ecae34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 12/86] fix: a missing direction was read as '1.0' instead of
 '1'

---
 pelicun/model/pelicun_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 767a8e1..99ddf11 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -404,7 +404,7 @@ class PelicunModel:
 
         """
         if pd.isna(dir_str):
-            return np.ones(1).astype(str)
+            return np.array(['1'])
 
         try:
             res = str(int(float(dir_str)))  # type: ignore
-- 
2.43.0


From ab15a22353ca914a79940d9700611bec88bab8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 13/86] fix: all rows of a component were read in the unit of
 its first row

---
 pelicun/model/asset_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 53142b2..a261272 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -364,7 +364,12 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    row_units = (
+                        self.cmp_units[row.Index]
+                        if pd.isna(row.Units)  # type: ignore
+                        else row.Units
+                    )
+                    cmp_marginal_param.extend([row_units] * num_vals)
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From f70a6532135ba3097efdbd6f80fb3bec72b8ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 14/86] fix: demand samples without units could not be loaded

---
 pelicun/model/demand_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..5adb4d4 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -256,7 +256,9 @@ class DemandModel(PelicunModel):
                     'Removing whitespace from header...', prepend_timestamp=False
                 )
 
-            wspace_remove = np.vectorize(lambda name: str(name).replace(' ', ''))
+            wspace_remove = np.vectorize(
+                lambda name: str(name).replace(' ', ''), otypes=[object]
+            )
 
             new_column_index = wspace_remove(new_column_index_array)
 
@@ -276,6 +278,11 @@ class DemandModel(PelicunModel):
             log=self._asmnt.log,
         )
         assert isinstance(demand_data, pd.DataFrame)
+        if units is None:
+            # base units are assumed for every demand
+            units = pd.Series(
+                index=demand_data.columns[:0], dtype=object, name='Units'
+            )
         assert isinstance(units, pd.Series)
 
         parsed_data = demand_data.copy()
-- 
2.43.0


From ff6de9e5a57ca80f63f32b98ce0a985e8e2565a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 15/86] fix: unit labels that are not spelled 'Units' were
 accepted but failed later

---
 pelicun/file_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 87a7e34..c1c00bf 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -479,6 +479,7 @@ def load_data(  # noqa: C901
 
     if units_key is not None:
         units = data[units_key] if orientation == 1 else data.loc[units_key]
+        units = units.rename('Units')
         data = data.drop([units_key], axis=orientation)  # type: ignore
         data = base.convert_dtypes(data)
 
-- 
2.43.0


From c40ebd73069b2c015dc3856da02597dd169535c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 16/86] fix: empirical data given as a table was ignored when
 loading a demand model

---
 pelicun/model/demand_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 5adb4d4..a4c7071 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -900,8 +900,8 @@ class DemandModel(PelicunModel):
 
         if empirical_data_source is not None:
             if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
+                isinstance(empirical_data_source, pd.DataFrame)
+                or Path(empirical_data_source).exists()
             ):
                 empirical_data = file_io.load_data(
                     empirical_data_source,
-- 
2.43.0


From 2e77504004012b6481cdf99f31b759147ff5f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 17/86] fix: cloned demands could be assigned the units of
 other demands

---
 pelicun/model/demand_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index a4c7071..0b82c8e 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1124,14 +1124,16 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
+        # find the units of the columns that are copied
+        assert self.user_units is not None
+        column_units = self.user_units.reindex(self.sample.columns[column_index])
         # copy the columns
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
         self.sample.columns = pd.MultiIndex.from_tuples(column_values)
         # update units
-        self.user_units = self.user_units.iloc[column_index]  # type: ignore
-        assert self.user_units is not None
-        self.user_units.index = self.sample.columns
+        column_units.index = self.sample.columns
+        self.user_units = column_units.dropna()
 
     def generate_sample(self, config: dict) -> None:
         """
-- 
2.43.0


From 422f537c6d534a275e3f5beea0e25be34eb6e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 18/86] fix: limits of the ALL calibration settings were scaled
 again by the unit of a specific demand type

---
 pelicun/model/demand_model.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 0b82c8e..b40072e 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -589,6 +589,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
+            # get the factor that scales the limits, if needed
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
             # load limits
             for lim in (
                 'CensorLower',
@@ -599,18 +602,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From f33b2b53bf01c404a3e8a1a2b14d9182317e0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 19/86] fix: the additional uncertainty of normal demands was
 combined with a coefficient of variation

---
 pelicun/model/demand_model.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index b40072e..6a77a05 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -611,7 +611,11 @@ class DemandModel(PelicunModel):
                 )
 
                 # scale the sig value if the target distribution family is normal
-                if settings['DistributionFamily'] == 'normal':
+                if settings['DistributionFamily'] in {
+                    'normal',
+                    'normal_cov',
+                    'normal_std',
+                }:
                     sig_increase *= scale_factor
 
                 cal_df.loc[list(cols), 'SigIncrease'] = sig_increase
@@ -784,8 +788,16 @@ class DemandModel(PelicunModel):
             )
             sig_0 = model_params.loc[:, 'Theta_1'].to_numpy()
 
-            model_params.loc[:, 'Theta_1'] = np.sqrt(
-                sig_0**2.0 + sig_inc**2.0,  # type: ignore
+            # the additional uncertainty is a standard deviation, but
+            # the dispersion of some distributions is a CoV
+            sig_scale = np.where(
+                model_params['Family'].isin(['normal', 'normal_cov']),
+                np.abs(model_params['Theta_0'].to_numpy(dtype=float)),
+                1.0,
+            )
+
+            model_params.loc[:, 'Theta_1'] = (
+                np.sqrt((sig_0 * sig_scale) ** 2.0 + sig_inc**2.0) / sig_scale
             )
 
         # remove unneeded fields from model_params
-- 
2.43.0


From 94ccdcdbbd131530f37dd04d2648a1e6c71c6952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 20/86] fix: accept tables where only some components have a
 demand expression

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 6a77a05..f47624d 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1303,6 +1303,9 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        if pd.isna(expression):
+            # the table has expressions for other components only
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From 0fb84abaf57d8cf84702ac801249a71c1f68eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 21/86] fix: keep every term of a demand expression that
 repeats a demand

---
 pelicun/model/demand_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f47624d..2135a55 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1452,7 +1452,7 @@ def _assemble_required_demand_data(
     demand_dict = {}
 
     for edps, expression in required_edps:
-        edp_values = {}
+        edp_values = []
 
         for edp in edps:
             edp_type, location, direction = edp.split('-')
@@ -1488,13 +1488,13 @@ def _assemble_required_demand_data(
                 # directional
                 demand = demand_sample[edp_type, location, direction].to_numpy()
 
-            edp_values[edp] = demand
+            edp_values.append(demand)
 
         # evaluate expression
         if expression is not None:
             # build a dict of values
             value_dict = {}
-            for i, edp_value in enumerate(edp_values.values()):
+            for i, edp_value in enumerate(edp_values):
                 value_dict[f'X{i + 1}'] = edp_value
             demand = ne.evaluate(
                 _clean_up_expression(expression), local_dict=value_dict
-- 
2.43.0


From 10d92bd34f208eff369b9ae8f943bdf3e0682106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 22/86] fix: refuse directional demands that the sample does
 not have

---
 pelicun/model/demand_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 2135a55..ba3dc72 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1588,13 +1588,13 @@ def _verify_edps_available(available_edps: dict, required: set) -> None:
                 raise ValueError(msg)
             # if non-directional demand is requested, ensure there
             # are entries (all directions accepted)
-            num_entries = len(available_edps[edp_type, location])
-            if edp[2] == '0' and num_entries == 0:
+            available_directions = available_edps[edp_type, location]
+            if direction == '0' and len(available_directions) == 0:
                 msg = (
                     f'Unable to locate any `{edp_type}` '
                     f'at location {location} and direction {direction}.'
                 )
                 raise ValueError(msg)
-            if edp[2] != '0' and num_entries == 0:
+            if direction != '0' and direction not in available_directions:
                 msg = f'Unable to locate `{edp_type}-{location}-{direction}`.'
                 raise ValueError(msg)
-- 
2.43.0


From 3f0fb356335eb911dfaae85b1ac45b47c5db281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 23/86] fix: support components that do not use the first limit
 state

---
 pelicun/model/damage_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..e09e063 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1535,7 +1535,8 @@ class DamageModel_DS(DamageModel_Base):
                         # Anchor all other limit state random variables to
                         # the first one to consider the perfect correlation
                         # between capacities in each LS
-                        if ls_id == limit_states[0]:
+                        # (the first one that the component has)
+                        if block_i == len(anchor_rvs):
                             anchor = None
                         else:
                             anchor = anchor_rvs[block_i]
@@ -1567,7 +1568,7 @@ class DamageModel_DS(DamageModel_Base):
                         # add the RV to the set of correlated variables
                         frg_rv_set_tags[block_i].append(frg_rv_tag)
 
-                        if ls_id == limit_states[0]:
+                        if anchor is None:
                             anchor_rvs.append(rv)
 
                         # Now add the LS->DS assignments
-- 
2.43.0


From 9771227b873d0f7558785932fab57bd5c490879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 24/86] fix: support several blocks with a multilinear capacity
 CDF

---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index e09e063..67eaff0 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1511,6 +1511,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1541,21 +1556,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = anchor_rvs[block_i]
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From b7a8ab1b7c326d47b882f52ab5878778520452de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 25/86] fix: evaluate limit states in increasing order

---
 pelicun/model/damage_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 67eaff0..2aecefa 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1123,7 +1123,11 @@ class DamageModel_DS(DamageModel_Base):
         )
 
         # get a list of limit state ids among all components in the damage model
-        ls_list = dmg_eval.columns.get_level_values(5).unique()
+        # in increasing order (10 comes after 9)
+        ls_list = sorted(
+            dmg_eval.columns.get_level_values(5).unique(),
+            key=lambda ls_id: (len(ls_id), ls_id),
+        )
 
         # for each consecutive limit state...
         for ls_id in ls_list:
-- 
2.43.0


From 8e1c67dde4a114c307d28726a219c558bfe30fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 26/86] fix: tolerate rounding errors in the sum of damage
 state weights

---
 pelicun/uq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 249a002..68c1975 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2446,7 +2446,8 @@ class MultinomialRandomVariable(RandomVariable):
             msg = f'{self.distribution} RVs do not support truncation'
             raise NotImplementedError(msg)
         self.distribution = 'multinomial'
-        if np.sum(theta) > 1.00:
+        # (rounding errors of the sum are tolerated)
+        if np.sum(theta) > 1.00 + 1.0e-9:
             msg = (
                 f'The set of p values provided for a multinomial '
                 f'distribution shall sum up to less than or equal to 1.0. '
-- 
2.43.0


From b601d9268568e1a9aa7289e3d17ed58ac7441d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 27/86] fix: number the damage states of ten or more limit
 states upwards

---
 pelicun/model/damage_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 2aecefa..1c9af49 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1446,6 +1446,8 @@ class DamageModel_DS(DamageModel_Base):
                 for val in frg_params.index.get_level_values(0).unique():
                     if 'LS' in val:
                         limit_states.append(val[2:])  # noqa: PERF401
+                # damage states are counted upwards: 10 comes after 9
+                limit_states.sort(key=lambda ls_id: (len(ls_id), ls_id))
 
                 ds_id = 0
 
-- 
2.43.0


From 1f93a8a55a36c068c664497628498cf51aeb081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 28/86] fix: support component names with underscores in damage
 processes

---
 pelicun/model/damage_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 1c9af49..1fe3c8f 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1755,7 +1755,7 @@ class DamageModel_DS(DamageModel_Base):
             self.log.msg(f'Applying task {task}...', prepend_timestamp=True)
 
         # parse task
-        source_cmp = task[0].split('_')[1]  # source component
+        source_cmp = task[0].split('_', 1)[1]  # source component
         events = task[1]  # prescribed events
 
         # check for the `-LOC` suffix. If this is the case, we need to
@@ -1797,7 +1797,7 @@ class DamageModel_DS(DamageModel_Base):
 
             for target_info in target_infos:
                 # get the target component and event type
-                target_cmp, target_event = target_info.split('_')
+                target_cmp, target_event = target_info.rsplit('_', 1)
 
                 if (target_cmp != 'ALL') and (
                     target_cmp not in self.ds_sample.columns.get_level_values('cmp')
-- 
2.43.0


From ffd8d0c845ac77dce831648c1a8e1f45ffb6eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 29/86] fix: run ten or more damage process tasks in the order
 of their numbers

---
 pelicun/model/damage_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 1fe3c8f..8168ded 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,15 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks by the number that they
+            # start with (10 comes after 9)
+            def task_order(key: str) -> tuple[float, str]:
+                number = key.split('_', 1)[0]
+                return (float(number) if number.isdigit() else np.inf, key)
+
+            dmg_process = {
+                key: dmg_process[key] for key in sorted(dmg_process, key=task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
-- 
2.43.0


From 232240ac5795f0c0214b793a901aee57e399738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 30/86] fix: support deterministic capacities that vary among
 realizations

---
 pelicun/uq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 68c1975..7f74861 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2406,6 +2406,9 @@ class DeterministicRandomVariable(UtilityRandomVariable):
           Sample array containing the deterministic value.
 
         """
+        if self.theta.ndim == 2:
+            # one value for each realization
+            return np.full(sample_size, self.theta[:, 0])
         return np.full(sample_size, self.theta[0])
 
 
-- 
2.43.0


From 074fc47d8f08b406fb4435ca66aeca8fd43ee63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 31/86] fix: support normal variables with realization-specific
 parameters

---
 pelicun/uq.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 7f74861..18fc6c6 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1661,8 +1661,9 @@ class Normal_STD(NormalRandomVariable):
         anchor: BaseRandomVariable | None = None,
     ) -> None:
         """Instantiate a Normal_STD random variable."""
-        mean, std = theta[:2]
-        theta = np.array([mean, std])
+        # works for both constant and realization-specific parameters
+        mean, std = np.asarray(theta).T[:2]
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -1694,15 +1695,16 @@ class Normal_COV(NormalRandomVariable):
           If the specified mean is zero.
 
         """
-        mean, cov = theta[:2]
+        # works for both constant and realization-specific parameters
+        mean, cov = np.asarray(theta).T[:2]
 
         almost_zero = 1e-40
-        if np.abs(mean) < almost_zero:
+        if np.any(np.abs(mean) < almost_zero):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
         std = np.abs(mean) * cov
-        theta = np.array([mean, std])
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
-- 
2.43.0


From 49ee23f48fe575cdc918b859cf32f365e343adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 32/86] fix: let the calibration of several variables recover
 from extreme trial parameters

---
 pelicun/uq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 18fc6c6..cdfb2b0 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -624,6 +624,10 @@ def _neg_log_likelihood(  # noqa: C901
 
     # if the problem is more than one dimensional, get the correlation matrix
     if n_dims > 1:
+        # parameters so far from the data that a sample cannot be represented
+        # in standard normal space are not viable
+        if not np.all(np.isfinite(std_samples)):
+            return 1e10
         rho_hat = _get_std_corr_matrix(std_samples)
         if rho_hat is None:
             return 1e10
-- 
2.43.0


From 13f6b869c1c9f6569fdff09b1023f993f372ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 33/86] fix: support every combination of the economies of
 scale settings

---
 pelicun/model/loss_model.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..8d98a48 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1930,22 +1930,18 @@ class RepairModel_DS(RepairModel_Base):
 
         if self._asmnt.options.eco_scale['AcrossFloors']:
             if self._asmnt.options.eco_scale['AcrossDamageStates']:
-                eco_levels = [0]
                 eco_columns = ['cmp']
 
             else:
-                eco_levels = [0, 4]
                 eco_columns = ['cmp', 'ds']
 
         elif self._asmnt.options.eco_scale['AcrossDamageStates']:
-            eco_levels = [0, 1]
             eco_columns = ['cmp', 'loc']
 
         else:
-            eco_levels = [0, 1, 4]
-            eco_columns = ['cmp', 'loc', 'ds']
+            eco_columns = ['cmp', 'ds', 'loc']
 
-        eco_group = dmg_quantities.T.groupby(level=eco_levels)
+        eco_group = dmg_quantities.T.groupby(level=eco_columns)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
@@ -2039,6 +2035,13 @@ class RepairModel_DS(RepairModel_Base):
                     .loc[:, component]
                     .columns.unique(level=0)
                 ):
+                    # consequences can be defined for a damage state
+                    # that no component block has reached
+                    if (component, ds) not in dmg_quantities.columns.droplevel(
+                        ['loc', 'dir', 'uid']
+                    ):
+                        continue
+
                     loc_list = []
 
                     for loc_id, loc in enumerate(
@@ -2486,7 +2489,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
+                if 'loc' in eco_qnt.columns.names:
                     result.columns.names = ['cmp', 'ds', 'loc']
                 else:
                     result.columns.names = ['cmp', 'ds']
-- 
2.43.0


From 987efa15cb3bc8bcb25511813ee13f4dd3216b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 34/86] fix: do not count undamaged quantities in economies of
 scale

---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8d98a48..2ca06c6 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1941,7 +1941,9 @@ class RepairModel_DS(RepairModel_Base):
         else:
             eco_columns = ['cmp', 'ds', 'loc']
 
-        eco_group = dmg_quantities.T.groupby(level=eco_columns)
+        # only damaged quantities count (i.e., not those in DS0)
+        damaged = dmg_quantities.columns.get_level_values('ds') != '0'
+        eco_group = dmg_quantities.loc[:, damaged].T.groupby(level=eco_columns)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
-- 
2.43.0


From bef9b2ec7cbb9a163d6479ccb13680d2fe354d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 35/86] fix: apply the loss map to consequences with loss
 functions

---
 pelicun/model/loss_model.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 2ca06c6..ffff5ea 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2562,7 +2562,12 @@ class RepairModel_LF(RepairModel_Base):
         performance_group_dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                # skip if the parameters are missing, or if they are
+                # provided for the other type of loss model
+                if (
+                    loss_map[component],
+                    decision_variable,
+                ) not in self.loss_params.index:
                     continue
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
@@ -2582,9 +2587,17 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # The parameters are defined for consequences. Assign them to
+        # the components that use them.
+        component_dvs = performance_group.index.get_level_values('cmp').unique()
+        component_params = self.loss_params.loc[
+            [(loss_map[component], dv) for component, dv in component_dvs]
+        ]
+        component_params.index = pd.MultiIndex.from_tuples(component_dvs)
+
         required_edps = base.invert_mapping(
             _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
+                component_params, performance_group, demand_offset
             )
         )
 
@@ -2756,12 +2769,12 @@ class RepairModel_LF(RepairModel_Base):
         ), blocks in performance_group['Blocks'].items():
             consequence = loss_map[component]
             edp = required_edps[
-                (consequence, decision_variable), location, direction, uid
+                (component, decision_variable), location, direction, uid
             ]
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From 718c1e8a81b5e9d82a221c0317ea1f0cb8045b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 36/86] fix: support damage without consequences and damaged
 components with loss functions

---
 pelicun/model/loss_model.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ffff5ea..897c47d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2131,6 +2131,15 @@ class RepairModel_DS(RepairModel_Base):
                     for loss_cmp_i, dmg_cmp_i, ds, loc in cmp_list
                 ]
 
+        # There may be no consequences for the damage
+        if not res_list:
+            self.sample = None
+            self.log.msg(
+                'The damage has no consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
@@ -2255,8 +2264,11 @@ class RepairModel_DS(RepairModel_Base):
                 # If loss parameters are missing for that consequence,
                 # for this particular loss model, they will exist in
                 # the other(s).
-                assert self.loss_params is not None
-                if (consequence, decision_variable) not in self.loss_params.index:
+                if (
+                    self.loss_params is None
+                    or (consequence, decision_variable)
+                    not in self.loss_params.index
+                ):
                     continue
 
                 # load the corresponding parameters
@@ -2386,10 +2398,17 @@ class RepairModel_DS(RepairModel_Base):
                 if loss_cmp_id not in eco_qnt.columns.get_level_values(0).unique():
                     continue
 
+                # The parameters can be provided for loss functions
+                if (
+                    self.loss_params is None
+                    or (loss_cmp_name, decision_variable)
+                    not in self.loss_params.index
+                ):
+                    continue
+
                 ds_list = []
                 sub_medians = []
 
-                assert self.loss_params is not None
                 for ds in self.loss_params.columns.get_level_values(0).unique():
                     if not ds.startswith('DS'):
                         continue
-- 
2.43.0


From a4f0e3ec24f6acf782d254fa4f00c6c393a3f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 37/86] fix: support deterministic consequences

---
 pelicun/model/loss_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 897c47d..0474e52 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2310,7 +2310,11 @@ class RepairModel_DS(RepairModel_Base):
                                     f'{ds}-{loc}-{direction}-{uid}'
                                 ),
                                 theta=np.array(ds_theta),
-                                truncation_limits=np.array([0.0, np.nan]),
+                                truncation_limits=(
+                                    None
+                                    if ds_family == 'deterministic'
+                                    else np.array([0.0, np.nan])
+                                ),
                             )
                         )
                         rv_count += 1
@@ -2896,7 +2900,11 @@ class RepairModel_LF(RepairModel_Base):
                         f'{component}-{location}-{direction}-{uid}-{block}'
                     ),
                     theta=np.array(theta),
-                    truncation_limits=np.array([0.0, np.nan]),
+                    truncation_limits=(
+                        None
+                        if family == 'deterministic'
+                        else np.array([0.0, np.nan])
+                    ),
                 )
             )
             rv_count += 1
-- 
2.43.0


From a8363a25b95fccf42cd27fb4211b93f8fcc1536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 38/86] fix: support components with both random and constant
 consequences

---
 pelicun/model/loss_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 0474e52..4774c7a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2015,9 +2015,11 @@ class RepairModel_DS(RepairModel_Base):
         for decision_variable in self.decision_variables:  # noqa: PLR1702
             if decision_variable in std_dvs:
                 assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
+                prob_cmp_list = std_sample[decision_variable].columns.droplevel(
+                    ['loc', 'dir', 'uid']
+                )
             else:
-                prob_cmp_list = []
+                prob_cmp_list = pd.MultiIndex.from_tuples([], names=['cmp', 'ds'])
 
             cmp_list: list[tuple[Any, ...]] = []
 
@@ -2064,7 +2066,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2085,7 +2087,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From 266deaa00373fed3f4709649d419fb4e622e96e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 39/86] fix: correlate cost and time of components with Cost in
 their names

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 4774c7a..a5d30c0 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2332,7 +2332,7 @@ class RepairModel_DS(RepairModel_Base):
                 loc = rv_tag.split('-')[3]
                 direction = rv_tag.split('-')[4]
                 uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
@@ -2924,7 +2924,7 @@ class RepairModel_LF(RepairModel_Base):
                 direction = split[4]
                 uid = split[5]
                 block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-- 
2.43.0


From 950e2e831275f2fae53f1792678b4fd1d3fb2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 40/86] fix: do not mix several definitions of the same
 consequence

---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a5d30c0..6463f01 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1655,7 +1655,9 @@ class RepairModel_Base(PelicunModel):
 
         # drop redefinitions of components
         data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
+            data.groupby(level=[0, 1])
+            .first(skipna=False)
+            .transform(lambda x: x.fillna(np.nan))
         )
         # note: .groupby introduces None entries. We replace them with
         # NaN for consistency.
-- 
2.43.0


From ad635bf1898592e5b322b1bc4b631d3238cb0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 41/86] fix: fill the loss map in an order that does not change
 between runs

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6463f01..e83127d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -241,7 +241,8 @@ class LossModel(PelicunModel):
             raise ValueError(msg)
 
         # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        # (in an order that does not change between runs)
+        cmp_set = sorted(set(self._asmnt.asset.list_unique_component_ids()))
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
-- 
2.43.0


From d601693cd81cbbc725f242fc26b47df3a11b489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 42/86] fix: save loss samples where a consequence has no
 losses in some decision variables

---
 pelicun/model/loss_model.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index e83127d..5d91071 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -742,11 +742,15 @@ class LossModel(PelicunModel):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
+        valid_pairs = set(
+            zip(
+                dv_units.index.get_level_values(0),
+                dv_units.index.get_level_values(1),
+            )
+        )
 
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in valid_pairs:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
@@ -1802,11 +1806,15 @@ class RepairModel_DS(RepairModel_Base):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
+        valid_pairs = set(
+            zip(
+                dv_units.index.get_level_values(0),
+                dv_units.index.get_level_values(1),
+            )
+        )
 
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in valid_pairs:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
-- 
2.43.0


From 09b1fc5a67ff5792989e41a1c761ad0d9bc98264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 43/86] fix: keep the precision of multilinear functions when
 converting their units

---
 pelicun/model/pelicun_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 99ddf11..9c4b2cc 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -242,7 +242,7 @@ class PelicunModel:
                     if len(arg) > 0:
                         theta[a_i] = '|'.join(
                             [
-                                ','.join([f'{val:g}' for val in vals])
+                                ','.join([f'{val:.15g}' for val in vals])
                                 for vals in (theta[a_i], arg)
                             ]
                         )
-- 
2.43.0


From 710bc68815e01e8ddc12592f2e9100530bcb8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 44/86] fix: load loss samples without unique identifiers

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5d91071..f99b71e 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1876,7 +1876,7 @@ class RepairModel_DS(RepairModel_Base):
         )
         assert isinstance(sample, pd.DataFrame)
         assert isinstance(units, pd.Series)
-        units.index.names = names
+        units.index = units.index.set_names('dv', level=0)
         # Obtain the DV units
         # Note: we don't need to check for consistency (all rows
         # having the same unit) since the units are extracted from a
-- 
2.43.0


From f3fb7b82cd91f9de769f4d0572adcc9bd42e1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 45/86] fix: apply exclusive replacement consequences when
 losses are aggregated

---
 pelicun/model/loss_model.py | 46 +++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index f99b71e..e369cb4 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -118,32 +118,57 @@ class LossModel(PelicunModel):
         pd.DataFrame
             The combined loss sample.
 
+        """
+        return self._combine_samples(self.ds_model.sample, self.lf_model.sample)
+
+    @staticmethod
+    def _combine_samples(
+        ds_sample: pd.DataFrame | None, lf_sample: pd.DataFrame | None
+    ) -> pd.DataFrame | None:
+        """
+        Combine samples of the ds_model and lf_model sub-models.
+
+        The inputs are not modified.
+
+        Parameters
+        ----------
+        ds_sample: pd.DataFrame or None
+            Loss sample of the ds_model.
+        lf_sample: pd.DataFrame or None
+            Loss sample of the lf_model.
+
+        Returns
+        -------
+        pd.DataFrame or None
+            The combined loss sample.
+
         """
         # Handle `None` cases
 
-        if self.ds_model.sample is None and self.lf_model.sample is None:
+        if ds_sample is None and lf_sample is None:
             return None
 
-        if self.ds_model.sample is None:
-            return self.lf_model.sample
+        if ds_sample is None:
+            return lf_sample
 
-        if self.lf_model.sample is None:
-            return self.ds_model.sample
+        if lf_sample is None:
+            return ds_sample
 
         # If both are not None, combine
 
-        ds_model_levels = self.ds_model.sample.columns.names
+        ds_model_levels = ds_sample.columns.names
 
         # add a `ds` level to the lf_model sample
-        new_index = self.lf_model.sample.columns.to_frame(index=False)
+        new_index = lf_sample.columns.to_frame(index=False)
         # add
         new_index['ds'] = 'N/A'
         # reorder
         new_index = new_index[ds_model_levels]
         new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
 
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return pd.concat(
+            (ds_sample, lf_sample.set_axis(new_multiindex, axis=1)), axis=1
+        )
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
@@ -923,7 +948,8 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
+        combined_sample = self._combine_samples(ds_sample, lf_sample)
+        assert combined_sample is not None
         sample = (
             combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
         )
-- 
2.43.0


From 040418abc4d23b094de9c24feea3fd531c08f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 46/86] fix: return both data frames when there are no losses
 to aggregate

---
 pelicun/model/loss_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index e369cb4..88b0fd5 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -931,7 +931,10 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            df_agg = pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            if not future:
+                return df_agg
+            return df_agg, pd.DataFrame(index=df_agg.index, dtype=bool)
 
         #
         #  handle `replacement`, regardless of whether
-- 
2.43.0


From 28865d4401c700e40819a07b8c22bed0c8fe074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 47/86] fix: aggregate losses of decision variables with any
 name

---
 pelicun/model/loss_model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 88b0fd5..cbe6502 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1383,14 +1383,13 @@ class LossModel(PelicunModel):
                 df_agg = df_agg.drop(f'repair_{decision_variable.lower()}', axis=1)
 
         # Convert units ..
-        column_measures = [
-            x.replace('repair_', '')
-            .replace('-sequential', '')
-            .replace('-parallel', '')
-            for x in df_agg.columns.get_level_values(0)
-        ]
+        column_dvs = {
+            f'repair_{x.lower()}': x for x in self.decision_variables if x != 'Time'
+        }
+        column_dvs['repair_time-sequential'] = 'Time'
+        column_dvs['repair_time-parallel'] = 'Time'
         assert self.dv_units is not None
-        column_units = [self.dv_units[x.title()] for x in column_measures]
+        column_units = [self.dv_units[column_dvs[x]] for x in df_agg.columns]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
-- 
2.43.0


From 1e7fd1532e3e6b1ea7f3a17e716dfeb1f6a0346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 48/86] fix: allow decision variables without a replacement
 threshold or losses

---
 pelicun/model/loss_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index cbe6502..4a37148 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1440,6 +1440,12 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            if (
+                sample_dv not in replacement_ratios
+                or sample_dv not in sample.columns.get_level_values('dv')
+            ):
+                # there is no threshold or no loss to compare with it
+                continue
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From 3deda6911e0b2309022a7e805cde86e1232b4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 49/86] fix: combine the losses of the stated components, in
 their order, everywhere

---
 pelicun/model/loss_model.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 4a37148..38bc3ae 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1190,21 +1190,24 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_parameters,
             ) in combination_data.items():
-                # determine if the components to combine are part of
-                # an available group
-                target_group: dict | None = None
-                for available_group in potential_groups[decision_variable]:
-                    # check if `components_to_combine` is a subset of
-                    # that available group
-                    if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
+                # determine where all the components to combine are
+                # part of an available group
+                target_loc_dir_uids = [
+                    loc_dir_uid
+                    for available_group, loc_dir_uids in potential_groups[
+                        decision_variable
+                    ].items()
+                    if frozenset(components_to_combine) <= available_group
+                    for loc_dir_uid in loc_dir_uids
+                ]
+                assert target_loc_dir_uids
                 # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                for loc_dir_uid in target_loc_dir_uids:
+                    # the axes of the combination table follow the
+                    # order of the components
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
                     values = np.column_stack([dsample[col] for col in cols])
                     # define/get interpolation function
-- 
2.43.0


From 01d20d71742cc1dece69f5ca350fbe5bc51c6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 50/86] fix: support loss combination tables of more than two
 components

---
 pelicun/model/loss_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 38bc3ae..5cd41e5 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1335,9 +1335,14 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                # one domain along each axis of the array
+                combination_index = tuple(
+                    combination_array[
+                        (0,) * axis
+                        + (slice(None),)
+                        + (0,) * (combination_array.ndim - axis - 1)
+                    ]
+                    for axis in range(combination_array.ndim)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From 0eebda86669135b0866434b5f54b7f1971c1d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 51/86] fix: keep the level names of the demand sample when
 demands are cloned

---
 pelicun/model/demand_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index ba3dc72..22995ab 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1134,7 +1134,9 @@ class DemandModel(PelicunModel):
         # copy the columns
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
-        self.sample.columns = pd.MultiIndex.from_tuples(column_values)
+        self.sample.columns = pd.MultiIndex.from_tuples(
+            column_values, names=self.sample.columns.names
+        )
         # update units
         column_units.index = self.sample.columns
         self.user_units = column_units.dropna()
-- 
2.43.0


From f2b6230fa785a46444858c07599fc14e9d046910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 52/86] fix: keep the default units when a units file is given,
 as documented

---
 pelicun/assessment.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..0ed95d2 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -112,9 +112,12 @@ class AssessmentBase:
         """
         self.stories: int | None = None
         self.options = base.Options(config_options, self)
-        self.unit_conversion_factors: dict = base.parse_units(
-            self.options.units_file
-        )
+        # the default units are always available
+        self.unit_conversion_factors: dict = base.parse_units()
+        if self.options.units_file:
+            self.unit_conversion_factors.update(
+                base.parse_units(self.options.units_file)
+            )
 
         self.log: Logger = self.options.log
         self.log.msg(
-- 
2.43.0


From 90af5118ce57018d16ecbf58816a7b70f9c3c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 53/86] fix: estimate residual drifts from drifts in base units

---
 pelicun/model/demand_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 22995ab..9ad68c0 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -471,7 +471,9 @@ class DemandModel(PelicunModel):
         demand_sample, demand_units = sample_tuple
         assert isinstance(demand_sample, pd.DataFrame)
         assert isinstance(demand_units, pd.Series)
-        pid = demand_sample['PID']
+        # the yield drift is unitless, so use the drifts in base units
+        # and not in the units of the saved sample
+        pid = self.sample['PID'].set_axis(demand_sample.index, axis=0)
         rid = self.estimate_RID(pid, params, method)
         rid_units = pd.Series('unitless', index=rid.columns)
         demand_sample_ext = pd.concat([demand_sample, rid], axis=1)
-- 
2.43.0


From 1ad97a15d83f9516f625e3cead730e3a01cd40b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 54/86] fix: treat every kind of corrupted DLML cache as an
 empty one

---
 pelicun/tools/dlml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..15285b6 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -232,10 +232,12 @@ def load_cache(cache_file: Union[str, Path]) -> Dict[str, Any]:  # noqa: UP007,
     if path.exists():
         try:
             with path.open('r') as f:
-                return json.load(f)
-        except (OSError, json.JSONDecodeError):
+                cache_data = json.load(f)
+        except (OSError, ValueError):
             # If the cache file is corrupted, return an empty cache
             return {}
+        if isinstance(cache_data, dict):
+            return cache_data
     return {}
 
 
-- 
2.43.0


From 0a3b6727e616f620d715b7d19975299e2e9e6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 55/86] fix: do not trust incomplete comparisons of DLML
 commits

---
 pelicun/tools/dlml.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 15285b6..b7f4b90 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -65,6 +65,9 @@ logger = logging.getLogger('pelicun.dlml')
 # --- Module-level path constants ---
 PELICUN_ROOT_DIR = Path(__file__).resolve().parent.parent
 
+# The GitHub API lists at most this many files in a comparison of two commits
+MAX_COMPARED_FILES = 300
+
 
 def get_api_repo_url() -> str:
     """
@@ -183,7 +186,8 @@ def _get_changed_files(
     Returns
     -------
     set[str] | None
-        A set of changed filenames, or None if the API call fails.
+        A set of changed filenames, or None if it is not available because the
+        API call fails, the commits diverged, or there are too many changes.
     """
     compare_url = f'{get_api_repo_url()}/compare/{base_commit}...{head_commit}'
 
@@ -206,7 +210,18 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        # The comparison starts from the common ancestor of the commits, so it
+        # misses changes when the commits are on different branches.
+        if compare_data.get('status') == 'diverged':
+            logger.info('The commits diverged, re-downloading all necessary files.')
+            return None
+
+        changed_files = compare_data.get('files', [])
+        if len(changed_files) >= MAX_COMPARED_FILES:
+            logger.info('Too many changes, re-downloading all necessary files.')
+            return None
+
+        return {file_info['filename'] for file_info in changed_files}
 
     except requests.exceptions.RequestException as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
-- 
2.43.0


From c28b617b1c58e6509dbbc63a16e74b3a061db4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 56/86] fix: invalidate the DLML cache before the files it
 describes are changed

---
 pelicun/tools/dlml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index b7f4b90..8939ccb 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -673,6 +673,10 @@ def download_data_files(  # noqa: C901
     total_files = len(files_to_download)
     logger.info(f'Checking {total_files} files for updates.')
 
+    # The cache describes the current files. It is not valid from here until
+    # all files are updated, even if this update is interrupted or does not use it.
+    cache_file.unlink(missing_ok=True)
+
     # Download files with progress reporting using tqdm
     skipped_count = 0
 
-- 
2.43.0


From e45aa16e531dd2d4701c385475182f28d10387a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 57/86] fix: do not leave a DLML file list behind when the
 first download fails

---
 pelicun/tools/dlml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 8939ccb..eb7445d 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -628,7 +628,9 @@ def download_data_files(  # noqa: C901
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
-    model_file_local_path = target_data_abs_dir / 'model_files.txt'
+    # The list gets its final name after all files are available because its
+    # presence is a proxy for a valid installation (see check_dlml_data)
+    model_file_local_path = target_data_abs_dir / 'model_files.txt.part'
     _download_file(model_file_list_url, str(model_file_local_path))
 
     logger.info('Successfully downloaded model file list.')
@@ -718,6 +720,9 @@ def download_data_files(  # noqa: C901
 
             pbar.update(1)
 
+    if model_file_local_path.exists():
+        model_file_local_path.replace(target_data_abs_dir / 'model_files.txt')
+
     # Save the new cache
     if use_cache:
         save_cache(str(cache_file), new_cache)
-- 
2.43.0


From a400e2c946bd6ff30be8329f99df0c48a3e52261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 58/86] fix: download DLML files with special characters in
 their path

---
 pelicun/tools/dlml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index eb7445d..b6f058a 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -52,6 +52,7 @@ import warnings
 from datetime import datetime, timedelta
 from pathlib import Path
 from typing import Any, Dict, Optional, Union
+from urllib.parse import quote
 
 import requests
 from packaging import version
@@ -712,7 +713,7 @@ def download_data_files(  # noqa: C901
 
             # Download the file if it's not in cache
             pbar.set_description(f'Downloading {local_path.name}')
-            remote_url = f'{file_download_base_url}/{file_path}'
+            remote_url = f'{file_download_base_url}/{quote(file_path)}'
             _download_file(remote_url, str(local_path))
 
             if use_cache:
-- 
2.43.0


From bd8c6bd5ba278d26e287fa958dca95bf5b03c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 59/86] fix: label intensity measures in regional simulations
 in the order they are stated

---
 pelicun/tools/regional_sim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..3e60cd7 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -485,7 +485,14 @@ def process_buildings_chunk(
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-    grid_data_sorted = grid_data.sort_index(axis=1)
+    # use the intensity measures in the order of im_list to label them correctly
+    grid_data_sorted = grid_data[
+        [
+            (grid_point, im_type)
+            for grid_point in sorted(grid_data.columns.unique(level=0))
+            for im_type in im_list
+        ]
+    ]
 
     n_realizations = grid_data_sorted.shape[0]
     n_sources = grid_data_sorted.columns.unique(level=0).size
-- 
2.43.0


From 645cffb17d87514a63def647868aeccdf0e17979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 60/86] fix: support buildings and damage states without losses
 in regional simulations

---
 pelicun/tools/regional_sim.py | 102 +++++++++++++++++++++++++++++-----
 1 file changed, 88 insertions(+), 14 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 3e60cd7..d7d268a 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -203,6 +203,56 @@ def tqdm_joblib(tqdm_object: tqdm) -> contextlib.Generator[None, None, None]:
         tqdm_object.close()
 
 
+def _add_buildings_without_losses(
+    assessment: Assessment,
+    repair: pd.DataFrame | None,
+    decision_variable: str,
+) -> pd.DataFrame:
+    """
+    Add the buildings that have no losses to a repair consequence sample.
+
+    The loss sample only includes the damage states that were triggered
+    and have a consequence. Buildings that have a consequence model, but
+    do not show up in the loss sample, have zero losses.
+
+    Parameters
+    ----------
+    assessment : Assessment
+        Pelicun Assessment object with losses already calculated
+    repair : pd.DataFrame
+        Repair consequences with building IDs as columns. None if there
+        are no losses at all.
+    decision_variable : str
+        The decision variable that describes the repair consequences
+
+    Returns
+    -------
+    pd.DataFrame
+        Repair consequences of every building with a consequence model
+
+    """
+    damage_sample = assessment.damage.save_sample()
+
+    with_model = {
+        cmp_id
+        for cmp_id, loss_id in assessment.loss.ds_model.loss_map['Repair'].items()
+        if (loss_id, decision_variable) not in assessment.loss.ds_model.missing
+    }
+    building_ids = {
+        int(loc)
+        for cmp_id, loc in zip(
+            damage_sample.columns.get_level_values('cmp'),
+            damage_sample.columns.get_level_values('loc'),
+        )
+        if cmp_id in with_model
+    }
+
+    if repair is None:
+        repair = pd.DataFrame(index=damage_sample.index)
+
+    return repair.reindex(columns=sorted(building_ids), fill_value=0.0)
+
+
 def _calculate_losses_hazus_eq(
     assessment: Assessment, dl_method: str, bldg_df_chunk: pd.DataFrame
 ) -> (pd.DataFrame, pd.DataFrame):
@@ -274,6 +324,9 @@ def _calculate_losses_hazus_eq(
             if building_id in cmp_lookup.index
         ]
 
+        if not building_ids:
+            continue
+
         # load only the subset of the damage sample that is needed for the calculation
         idx = pd.IndexSlice
         dmg_subset = full_dmg_sample.loc[
@@ -305,6 +358,14 @@ def _calculate_losses_hazus_eq(
 
         assessment.loss.calculate()
 
+        if assessment.loss.ds_model.sample is None:
+            # none of these buildings have losses
+            for DV_type in ['Cost', 'Time']:  # noqa: N806
+                loss_results[DV_type].append(
+                    _add_buildings_without_losses(assessment, None, DV_type)
+                )
+            continue
+
         repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
         # aggregate across uid
@@ -333,11 +394,15 @@ def _calculate_losses_hazus_eq(
 
         # append the results to the main dict
         for DV_type in ['Cost', 'Time']:  # noqa: N806
-            grp_repair_dv = grp_repair[DV_type].copy()
-            grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
+            grp_repair_dv = None
+            if DV_type in grp_repair.columns.unique(level='dv'):
+                grp_repair_dv = grp_repair[DV_type].copy()
+                grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
 
             # we did not preserve the units for now; we can add them here if needed
-            loss_results[DV_type].append(grp_repair_dv.loc[:, building_ids])
+            loss_results[DV_type].append(
+                _add_buildings_without_losses(assessment, grp_repair_dv, DV_type)
+            )
 
     repair_costs = pd.concat(loss_results['Cost'], axis=1).sort_index(axis=1).T
     repair_times = pd.concat(loss_results['Time'], axis=1).sort_index(axis=1).T
@@ -383,6 +448,14 @@ def _calculate_losses_general(
 
     assessment.loss.calculate()
 
+    if assessment.loss.ds_model.sample is None:
+        # none of the buildings have losses
+        repair_costs = _add_buildings_without_losses(assessment, None, 'Cost').T
+        repair_times = None
+        if 'Time' in decision_variables:
+            repair_times = _add_buildings_without_losses(assessment, None, 'Time').T
+        return repair_costs, repair_times
+
     repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
     # aggregate across uid
@@ -412,18 +485,19 @@ def _calculate_losses_general(
     # - - - -
 
     # prepare the output
-    repair_costs = grp_repair['Cost']
-    repair_costs.columns = repair_costs.columns.astype(int)
-    repair_costs = repair_costs.T
-
-    if 'Time' in decision_variables:
-        repair_times = grp_repair['Time']
-        repair_times.columns = repair_times.columns.astype(int)
-        repair_times = repair_times.T
-    else:
-        repair_times = None
+    outputs: dict[str, pd.DataFrame | None] = {'Cost': None, 'Time': None}
+    for DV_type in outputs:  # noqa: N806
+        if DV_type not in decision_variables:
+            continue
+        grp_repair_dv = None
+        if DV_type in grp_repair.columns.unique(level='dv'):
+            grp_repair_dv = grp_repair[DV_type]
+            grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
+        outputs[DV_type] = _add_buildings_without_losses(
+            assessment, grp_repair_dv, DV_type
+        ).T
 
-    return repair_costs, repair_times
+    return outputs['Cost'], outputs['Time']
 
 
 def process_buildings_chunk(
-- 
2.43.0


From af98b1e0e7ba86f5cdf497665743dd549b80f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 61/86] fix: keep quantiles within truncation limits that are
 in the far tail of a distribution

---
 pelicun/uq.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index cdfb2b0..c0d5016 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1638,6 +1638,8 @@ class NormalRandomVariable(RandomVariable):
             self._ensure_positive_probability_difference(p_b, p_a)
 
             result = norm.ppf(values * (p_b - p_a) + p_a, loc=mu, scale=sig)
+            # a limit in the far tail is lost in the precision of p_a and p_b
+            result = np.clip(result, a, b)
 
         else:
             result = norm.ppf(values, loc=mu, scale=sig)
@@ -1825,6 +1827,8 @@ class LogNormalRandomVariable(RandomVariable):
             result = np.exp(
                 norm.ppf(values * (p_b - p_a) + p_a, loc=np.log(theta), scale=beta)
             )
+            # a limit in the far tail is lost in the precision of p_a and p_b
+            result = np.clip(result, a, b)
 
         else:
             result = np.exp(norm.ppf(values, loc=np.log(theta), scale=beta))
@@ -2056,6 +2060,8 @@ class WeibullRandomVariable(RandomVariable):
             result = weibull_min.ppf(
                 values * (p_b - p_a) + p_a, kappa, scale=lambda_
             )
+            # a limit in the far tail is lost in the precision of p_a and p_b
+            result = np.clip(result, a, b)
 
         else:
             result = weibull_min.ppf(values, kappa, scale=lambda_)
-- 
2.43.0


From 858155b5a631e7940ddcdb2fd66bda34889fd237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 62/86] fix: damage calculation failed when a damage process
 made every component not available

---
 pelicun/model/damage_model.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 8168ded..4957562 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1701,6 +1701,17 @@ class DamageModel_DS(DamageModel_Base):
                     component, location, direction, uid, block, str(ds)
                 ] = dmg_qnt_series
 
+        # No quantity is available if every block is set to NA in every
+        # realization
+        if not dmg_qnt_series_collection:
+            return pd.DataFrame(
+                index=component_sample.index,
+                columns=pd.MultiIndex.from_tuples(
+                    [], names=['cmp', 'loc', 'dir', 'uid', 'ds']
+                ),
+                dtype=float,
+            )
+
         damage_quantities = pd.concat(
             dmg_qnt_series_collection.values(),
             axis=1,
@@ -1961,6 +1972,10 @@ class DamageModel_DS(DamageModel_Base):
           damage states for each component.
 
         """
+        # there is nothing to complete if no quantity is available
+        if dmg_sample.columns.empty:
+            return dmg_sample
+
         # get a shortcut for the damage model parameters
         dp = self.damage_params
         assert dp is not None
-- 
2.43.0


From f4da80617128eb7cd979ae124eb492d6933f8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 63/86] fix: support integer collapse limits

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 0ed95d2..c425b56 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -662,7 +662,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, int, float))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From e76d386bdef1ebee01166dcf3a0a26b1e05405de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 64/86] fix: story-specific collapse fragilities failed with
 demands that have a default offset

---
 pelicun/assessment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index c425b56..758faed 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1061,6 +1061,12 @@ class DLCalculationAssessment(AssessmentBase):
                 )
                 raise ValueError(msg)
 
+            # the demands are evaluated at their own location, so a default
+            # offset (e.g., for floor accelerations) shall not apply
+            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = (
+                -self.options.demand_offset.get(coll_dem, 0)
+            )
+
             if coll_dem_spec is None:
                 adf.loc[coll_cmp_name, ('Demand', 'Type')] = coll_dem_name
 
-- 
2.43.0


From 16eebd75a22bb3d084aea0d36cc86d282e61fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 65/86] fix: save the aggregate results of calculations without
 any losses

---
 pelicun/tools/DL_calculation.py | 35 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..d313699 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1435,23 +1435,30 @@ def _loss_save(  # noqa: C901
         Whether to aggregate colocated components. Default is False.
 
     """
-    out = assessment.loss.save_sample(save_units=True)
-    assert isinstance(out, tuple)
-    repair_sample, repair_units_series = out
-    repair_units = repair_units_series.to_frame().T
+    if assessment.loss.sample is None:
+        # only the aggregate results are available without losses
+        output_config = {
+            key: val for key, val in output_config.items() if 'Aggregate' in key
+        }
 
-    if aggregate_colocated:
-        if 'ds' in repair_units.columns.names:
-            uid_levels = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
-        else:
-            uid_levels = ['dv', 'loss', 'dmg', 'loc', 'dir']
+    else:
+        out = assessment.loss.save_sample(save_units=True)
+        assert isinstance(out, tuple)
+        repair_sample, repair_units_series = out
+        repair_units = repair_units_series.to_frame().T
+
+        if aggregate_colocated:
+            if 'ds' in repair_units.columns.names:
+                uid_levels = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
+            else:
+                uid_levels = ['dv', 'loss', 'dmg', 'loc', 'dir']
 
-        repair_units = repair_units.T.groupby(level=uid_levels).first().T
-        repair_groupby_uid = repair_sample.T.groupby(level=uid_levels)
+            repair_units = repair_units.T.groupby(level=uid_levels).first().T
+            repair_groupby_uid = repair_sample.T.groupby(level=uid_levels)
 
-        repair_sample = (
-            repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
-        )
+            repair_sample = (
+                repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
+            )
 
     out_reqs = _parse_requested_output_file_names(output_config)
 
-- 
2.43.0


From daef6cfd00b87954fb35a89e3da314b499988f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 66/86] fix: aggregate losses had a single realization when
 there were no losses

---
 pelicun/model/loss_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5cd41e5..eb6e28c 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -931,7 +931,13 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            df_agg = pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            # each realization has zero loss
+            demand_sample = self._asmnt.demand.sample
+            df_agg = pd.DataFrame(
+                0.00,
+                index=[0] if demand_sample is None else demand_sample.index,
+                columns=_construct_columns(),
+            )
             if not future:
                 return df_agg
             return df_agg, pd.DataFrame(index=df_agg.index, dtype=bool)
-- 
2.43.0


From ea77b8d68980fa52088c6f4c862627f46fcba1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 67/86] fix: default damage processes ignored structural
 components with an underscore in their name

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 758faed..7af4dad 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1243,7 +1243,7 @@ class DLCalculationAssessment(AssessmentBase):
                 asset_components = set(self.asset.list_unique_component_ids())
                 filtered_dmg_process = {}
                 for key in dmg_process:
-                    component = key.split('_')[1]
+                    component = key.split('_', 1)[1]
                     if component in asset_components:
                         filtered_dmg_process[key] = dmg_process[key]
                 dmg_process = filtered_dmg_process
-- 
2.43.0


From f7edaef5e8f24154d0eced1a0bb53581d97c3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 68/86] fix: replacement carbon and energy without parameters
 were not removed from the consequences

---
 pelicun/assessment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 7af4dad..32c78ba 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1726,7 +1726,7 @@ def _loss__add_replacement_energy(
 
     else:
         # for everything else, remove this consequence
-        adf = adf.drop(ren)
+        adf.drop(ren, inplace=True)  # noqa: PD002
 
 
 def _loss__add_replacement_carbon(
@@ -1787,7 +1787,7 @@ def _loss__add_replacement_carbon(
 
     else:
         # for everything else, remove this consequence
-        adf = adf.drop(rcarb)
+        adf.drop(rcarb, inplace=True)  # noqa: PD002
 
 
 def _loss__add_replacement_time(
-- 
2.43.0


From db36872827f6cb44dc8a692c3865155c363a8660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 69/86] fix: losses that are whole numbers could not be
 converted to other units

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index eb6e28c..84ea622 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2204,7 +2204,7 @@ class RepairModel_DS(RepairModel_Base):
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-        dv_sample = dv_sample.fillna(0).convert_dtypes()
+        dv_sample = dv_sample.fillna(0).astype(float)
 
         self.log.msg('Successfully obtained DV sample.', prepend_timestamp=False)
         self.sample = dv_sample
-- 
2.43.0


From 37358687975cc65f86fe2fb30344293fa40a6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 70/86] fix: consequences in several databases were not
 deduplicated

---
 pelicun/assessment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 32c78ba..af12dbd 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1353,8 +1353,8 @@ class DLCalculationAssessment(AssessmentBase):
             custom_model_dir,
         )
 
-        # remove duplicates from conseq_df
-        conseq_df = conseq_df.loc[conseq_df.index.unique(), :]
+        # remove duplicates from conseq_df, databases listed later take precedence
+        conseq_df = conseq_df.loc[~conseq_df.index.duplicated(keep='last'), :]
 
         # add the replacement consequence to the data
         adf = pd.DataFrame(
-- 
2.43.0


From f20adcff32862cff2fd70d36bc9c979868f7a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 71/86] fix: remove JSON results of earlier calculations from
 the output directory

---
 pelicun/tools/DL_calculation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index d313699..965d703 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -331,7 +331,13 @@ def run_pelicun(  # noqa: C901
     # List to keep track of the generated output files.
     out_files: list[str] = []
 
-    _remove_existing_files(output_path_p, known_output_files)
+    _remove_existing_files(
+        output_path_p,
+        [
+            *known_output_files,
+            *(Path(name).with_suffix('.json').name for name in known_output_files),
+        ],
+    )
 
     # Run the assessment
     assessment = DLCalculationAssessment(config_options=get(config, 'DL/Options'))
-- 
2.43.0


From c53a46e1b4dd7ffe051ee696a5c6d4d449afa9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 72/86] fix: save statistics in JSON files as numbers

---
 pelicun/tools/DL_calculation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 965d703..4e1639e 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1062,7 +1062,7 @@ def _create_json_files_if_requested(
                 axis=1,
             )
 
-            data = data.drop(units_key, axis=0)
+            data = data.drop(units_key, axis=0).astype(float)
 
             out_dict = convert_df_to_dict(data)
 
-- 
2.43.0


From 3f0dd43574e9db1edb49114ebb935b3abbfba5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 73/86] fix: calculations changed the default outputs of later
 calculations

---
 pelicun/tools/DL_calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 4e1639e..2e7cdef 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -42,6 +42,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import os
 import sys
@@ -797,9 +798,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(config_ap, 'DL/Outputs', copy.deepcopy(regional_out_config))
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', copy.deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -839,7 +840,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', copy.deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -859,7 +860,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', copy.deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From dd68bcf5a8af71e960c03a6aab07205fbad0a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:46 +0000
Subject: [PATCH 74/86] fix: collapse and irreparable entries of user-defined
 loss maps were replaced

---
 pelicun/assessment.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index af12dbd..48bcb01 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1424,9 +1424,13 @@ class DLCalculationAssessment(AssessmentBase):
             raise ValueError(msg)
 
         # prepare additional loss map entries, if needed
-        if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+        # without changing those that are already there (the `DMG-` prefix is
+        # deprecated, but loss maps that use it are still supported)
+        is_prefixed = loss_map.index.astype(str).str.startswith('DMG-').any()
+        prefix = 'DMG-' if is_prefixed else ''
+        for event in ('collapse', 'irreparable'):
+            if f'{prefix}{event}' not in loss_map.index:
+                loss_map.loc[f'{prefix}{event}', 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From a4bffba5aefa9d6a99ada4cf0746688707c32d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 75/86] fix: loss maps with component names that include DMG

---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 84ea622..8d9e812 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -281,7 +281,9 @@ class LossModel(PelicunModel):
             )
             assert isinstance(loss_map, pd.DataFrame)
             # <backwards compatibility>
-            if np.any(['DMG' in x for x in loss_map.index]):  # type: ignore
+            if isinstance(loss_map.index, pd.MultiIndex) and np.any(
+                ['DMG' in x for x in loss_map.index]
+            ):
                 self.log.warning(
                     'The `DMG-` flag in the loss_map index is deprecated '
                     'and no longer necessary. '
-- 
2.43.0


From 4446cc738b43e498bd88719c71139182afbbf8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 76/86] fix: options of the asset need no options from the
 auto-population script

---
 pelicun/tools/DL_calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 2e7cdef..3e87d4c 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -765,6 +765,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
             # extend options defined via the auto-population script to
             # include those in the original `config`
             config_ap['Applications']['DL']['ApplicationData'].pop('Options')
+            config_ap['DL'].setdefault('Options', {})
             update_vals(
                 config_ap['DL']['Options'],
                 assessment_options,
-- 
2.43.0


From b1a7a7c5aa002a20458ead20ed88619cc82a4ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 77/86] fix: use response.csv when no demand file is specified

---
 pelicun/tools/DL_calculation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 3e87d4c..0fcbc57 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -642,6 +642,10 @@ def _parse_config_file(  # noqa: C901, PLR0912
     # add the demand file to the DL if needed
     if is_specified(config, 'DL'):
         if is_unspecified(config, 'DL/Demands/DemandFilePath'):
+            # if the demand file location is not specified at all, assume there
+            # is a `response.csv` file next to the config file.
+            if demand_file is None:
+                demand_file = str(config_path.parent / 'response.csv')
             update(config, '/DL/Demands/DemandFilePath', demand_file)
 
     # Validate the configuration against the schema
-- 
2.43.0


From 1d779b6f864af37fba6004f4c876ac4bf2b6bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 78/86] fix: demand models without correlation could not be
 loaded after saving them

The data of an earlier model, or its files under the same prefix, were
also kept when the model had no correlation or empirical data.
---
 pelicun/model/demand_model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 9ad68c0..c3efccd 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -838,11 +838,17 @@ class DemandModel(PelicunModel):
         self.log.msg('Saving demand model...')
 
         # save the correlation and empirical data
-        file_io.save_to_csv(self.correlation, Path(file_prefix + '_correlation.csv'))
+        # (the files of a model saved earlier under the same prefix do not
+        # belong to this one)
+        correlation_path = Path(file_prefix + '_correlation.csv')
+        empirical_path = Path(file_prefix + '_empirical.csv')
+        correlation_path.unlink(missing_ok=True)
+        empirical_path.unlink(missing_ok=True)
+        file_io.save_to_csv(self.correlation, correlation_path)
         if self.empirical_data is not None:
             file_io.save_to_csv(
                 self.empirical_data,
-                Path(file_prefix + '_empirical.csv'),
+                empirical_path,
                 units=self.user_units,
                 unit_conversion_factors=self._asmnt.unit_conversion_factors,
                 log=self._asmnt.log,
@@ -898,8 +904,13 @@ class DemandModel(PelicunModel):
             correlation_data_source = data_source.get('correlation', None)
         elif isinstance(data_source, str):
             marginal_data_source = data_source + '_marginals.csv'
+            # these files only exist for models that have such data
             empirical_data_source = data_source + '_empirical.csv'
+            if not Path(empirical_data_source).exists():
+                empirical_data_source = None
             correlation_data_source = data_source + '_correlation.csv'
+            if not Path(correlation_data_source).exists():
+                correlation_data_source = None
         else:
             msg = f'Invalid data_source type: {type(data_source)}.'
             raise TypeError(msg)
-- 
2.43.0


From 2d93e8808785b708f7e7b23f2fa48c54c8268146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 79/86] fix: optional settings of Assessment.calculate_damage
 were ignored or required

The location and direction of the collapse demand were ignored, and the
method of the residual drifts was required, although they are documented
as optional settings with defaults.
---
 pelicun/assessment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 48bcb01..d5c25b7 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -456,7 +456,7 @@ class Assessment(AssessmentBase):
         if residual_drift_configuration:
             self.demand.estimate_RID_and_adjust_sample(
                 residual_drift_configuration['parameters'],
-                residual_drift_configuration['method'],
+                residual_drift_configuration.get('method', 'FEMA P58'),
             )
 
         if collapse_fragility_configuration:
@@ -464,6 +464,8 @@ class Assessment(AssessmentBase):
                 collapse_fragility_configuration['label'],
                 collapse_fragility_configuration['value'],
                 collapse_fragility_configuration['unit'],
+                collapse_fragility_configuration.get('location', '0'),
+                collapse_fragility_configuration.get('direction', '1'),
             )
 
         self.stories = num_stories
-- 
2.43.0


From 28b83f60b0754c226477dce67ceb33cb28e1271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:16 +0000
Subject: [PATCH 80/86] fix: earlier names of the Hazus water and power
 libraries led to folders that do not exist

---
 pelicun/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index c1c00bf..eba9bce 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -86,8 +86,8 @@ legacy_names = {
     'damage_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
     'damage_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories',
     'damage_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
-    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Water',
-    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Power',
+    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Potable Water',
+    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Electric Power',
     'damage_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
     'loss_repair_DB_FEMA_P58_2nd': 'FEMA P-58',
     'loss_repair_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
-- 
2.43.0


From 5a502c9dcbd14f898f1dac35e3204705e9e77f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:16 +0000
Subject: [PATCH 81/86] fix: earlier names of consequence libraries could not
 be used in calculations

---
 pelicun/assessment.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index d5c25b7..f492c95 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1535,34 +1535,26 @@ class DLCalculationAssessment(AssessmentBase):
                     )[0]
                 assert isinstance(consequence_db_path, str)
 
+                if not Path(consequence_db_path).is_file():
+                    # try loading loss functions instead
+                    consequence_db_path = str(
+                        Path(consequence_db_path).parent / 'loss_repair.csv'
+                    )
+
                 if Path(consequence_db_path).is_file():
                     consequence_db.append(consequence_db_path)
 
-                    conseq_df = pd.concat(
-                        [
-                            conseq_df,
-                            self.get_default_data(method_name, 'consequence_repair'),
-                        ]
-                    )
-                    assert isinstance(conseq_df, pd.DataFrame)
-
-                else:
-                    # try loading loss functions instead
-                    loss_db_path = file_io.substitute_default_path(
-                        [f'PelicunDefault/{method_name}/loss_repair.csv'],
+                    default_conseq_df = file_io.load_data(
+                        consequence_db_path,
+                        unit_conversion_factors=None,
+                        orientation=1,
+                        reindex=False,
                         log=self.log,
-                    )[0]
-
-                    if Path(loss_db_path).is_file():
-                        consequence_db.append(loss_db_path)
+                    )
+                    assert isinstance(default_conseq_df, pd.DataFrame)
 
-                        conseq_df = pd.concat(
-                            [
-                                conseq_df,
-                                self.get_default_data(method_name, 'loss_repair'),
-                            ]
-                        )
-                        assert isinstance(conseq_df, pd.DataFrame)
+                    conseq_df = pd.concat([conseq_df, default_conseq_df])
+                    assert isinstance(conseq_df, pd.DataFrame)
 
         if consequence_database_path is not None:
             if 'CustomDLDataFolder' in consequence_database_path:
-- 
2.43.0


From c8d7c1f7a87be1c059480be5c9491ab4512926be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:16 +0000
Subject: [PATCH 82/86] fix: replacement losses were lost with loss maps that
 use the BldgRepair column

---
 pelicun/assessment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index f492c95..50383ac 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1430,9 +1430,11 @@ class DLCalculationAssessment(AssessmentBase):
         # deprecated, but loss maps that use it are still supported)
         is_prefixed = loss_map.index.astype(str).str.startswith('DMG-').any()
         prefix = 'DMG-' if is_prefixed else ''
+        # (`BldgRepair` is the deprecated name of the `Repair` column)
+        column = 'BldgRepair' if 'BldgRepair' in loss_map.columns else 'Repair'
         for event in ('collapse', 'irreparable'):
             if f'{prefix}{event}' not in loss_map.index:
-                loss_map.loc[f'{prefix}{event}', 'Repair'] = 'replacement'
+                loss_map.loc[f'{prefix}{event}', column] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From 544c775ae71a7ff48f3c4fa3e1e61e9c25ab652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:02 +0000
Subject: [PATCH 83/86] fix: rows of an input table with the same label were
 reordered in long tables

---
 pelicun/file_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index eba9bce..5f763f6 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -535,13 +535,14 @@ def load_data(  # noqa: C901
     else:
         # convert index to MultiIndex if needed
         data = base.convert_to_MultiIndex(data, axis=0)
-        data = data.sort_index()
+        # (rows with the same label keep their order)
+        data = data.sort_index(kind='stable')
 
     if return_units:
         if units is not None:
             # convert index in units Series to MultiIndex if needed
             units = base.convert_to_MultiIndex(units, axis=0).dropna()  # type: ignore
-            units = units.sort_index()
+            units = units.sort_index(kind='stable')
         output = data, units
     else:
         output = data  # type: ignore
-- 
2.43.0


From 03e8bb6bcaa223ab6224751785abf66b5cf8e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 84/86] fix: loss function losses of an earlier calculation
 were kept when there are none

---
 pelicun/model/loss_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8d9e812..bbb882c 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2660,6 +2660,7 @@ class RepairModel_LF(RepairModel_Base):
                 ] = num_blocks
 
         if not performance_group_dict:
+            self.sample = None
             self.log.msg(
                 'No loss function-driven components---LF sample is set to None.',
                 prepend_timestamp=False,
-- 
2.43.0


From db6dc1adb3547efbc8a787a1ff7cf5032849c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 85/86] fix: samples generated from a loaded demand model could
 not be used for calibration

---
 pelicun/model/demand_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index c3efccd..5670b63 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -572,7 +572,7 @@ class DemandModel(PelicunModel):
 
                 return out_float
 
-            demand_sample = self.save_sample()
+            demand_sample = self.sample
             assert isinstance(demand_sample, pd.DataFrame)
             active_d_types = demand_sample.columns.get_level_values('type').unique()
 
-- 
2.43.0


From d1abb820a004f2d9a9a4110c05a4de43a0dd3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 86/86] fix: empirical data of an earlier demand model were
 kept and saved with a calibrated one

---
 pelicun/model/demand_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 5670b63..25ede7e 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -739,6 +739,8 @@ class DemandModel(PelicunModel):
         assert isinstance(demand_sample, pd.DataFrame)
         if empirical_edps:
             self.empirical_data = demand_sample.loc[:, empirical_edps].copy()
+        else:
+            self.empirical_data = None
 
         # remove the empirical demands from the samples used for calibration
         demand_sample = demand_sample.drop(empirical_edps, axis=1)
-- 
2.43.0

