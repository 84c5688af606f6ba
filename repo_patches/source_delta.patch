From c4e6772f950264d55c0f16da760d8489e90202f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 01/44] fix: chunk offsets for TimeChunks with a lead_time
 slice

iter_with_chunk_offsets multiplied a None chunk size, so that pipelines with
a lead time interval failed with a TypeError.
---
 weatherbenchX/time_chunks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..80d0d82 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -197,6 +197,9 @@ class TimeChunks(Iterable[TimeChunk]):
     """
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      # The chunk size is None for a lead_time slice, which is a single chunk.
+      lead_index = (self._lead_time_chunk_size or 0) * (
+          index % self._num_lead_chunks
+      )
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From fe2d7ead65cb0fb27a3f513ac9de35028d264cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 02/44] fix: aggregate boolean statistics as numbers, not with
 logical or

---
 weatherbenchX/aggregation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index d251b15..7b2a4f9 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -329,6 +329,11 @@ class Aggregator:
 
   def aggregate_stat_var(self, stat: xr.DataArray) -> AggregationState | None:
     """Aggregate one statistic DataArray for one variable."""
+    if stat.dtype == bool:
+      # Sums of booleans are logical ORs in xr.dot, which would neither count
+      # the statistic nor the weights.
+      stat = stat.astype('float32')
+
     if self.masked and hasattr(stat, 'mask'):
       mask = stat.mask
       if self.skipna:
-- 
2.43.0


From 56d5570061c5cf616a9422e687e24da645571c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 03/44] fix: sum aggregation states whose extra coordinates
 cannot be filled with zeros

---
 weatherbenchX/aggregation.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index 7b2a4f9..4d19bf9 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -50,7 +50,24 @@ def combining_sum(data_arrays: Sequence[xr.DataArray]) -> xr.DataArray:
   Returns:
     The results as a DataArray.
   """
-  return sum(xr.align(*data_arrays, join='outer', fill_value=0))
+  # Zero-fill only the values: other coordinates along the non-aligned ones (e.g.
+  # a datetime valid_time) can't be filled with zeros.
+  values = '__values__'
+  aligned = xr.align(
+      *[da.to_dataset(name=values) for da in data_arrays],
+      join='outer',
+      fill_value={values: 0},
+  )
+  # As in any xarray arithmetic, coordinates that differ are dropped.
+  coords, differing = {}, set()
+  for ds in aligned:
+    for name, coord in ds.coords.items():
+      if not coord.variable.equals(coords.setdefault(name, coord).variable):
+        differing.add(name)
+  result = sum(ds[values].drop_vars(differing, errors='ignore')
+               for ds in aligned)
+  names = set(da.name for da in data_arrays)
+  return result.rename(names.pop() if len(names) == 1 else None)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 45a7234691af9a5abf9989ae7804f75f28444498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 04/44] fix: keep the statistic's coordinates on its mask
 during aggregation

---
 weatherbenchX/aggregation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index 4d19bf9..bf78b99 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -363,8 +363,9 @@ class Aggregator:
       stat = stat.where(mask, 0)
 
       # We need to broadcast the mask to the same shape as the stat, so that
-      # reductions over it behave the same as reductions over the full stat.
-      mask = mask.broadcast_like(stat)
+      # reductions over it behave the same as reductions over the full stat. It
+      # also needs all coordinates of the stat, for use by binnings.
+      mask = xr.ones_like(stat).where(mask, 0)
     elif self.skipna:
       mask = ~stat.isnull()
       stat = stat.where(mask, 0)
-- 
2.43.0


From e2cb73a3418bf93d2df85d11ff619eb781e69a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 05/44] fix: keep all values of metrics that differ in their
 coordinates

---
 weatherbenchX/aggregation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index bf78b99..7a0880b 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -150,11 +150,17 @@ class AggregationState:
     metric_values = metrics_base.compute_metrics_from_statistics(
         metrics, mean_statistics
     )
+    data_arrays = {
+        f'{metric_name}.{var_name}': da
+        for metric_name, per_var in metric_values.items()
+        for var_name, da in per_var.items()
+    }
+    # Adding to a Dataset reindexes to the coordinates already in it, which loses
+    # values if metrics differ in their coordinates (e.g. thresholds).
+    aligned = xr.align(*data_arrays.values(), join='outer')
     values = xr.Dataset()
-    for metric_name in metric_values:
-      for var_name in metric_values[metric_name]:
-        da = metric_values[metric_name][var_name]
-        values[f'{metric_name}.{var_name}'] = da
+    for name, da in zip(data_arrays, aligned):
+      values[name] = da
     return values
 
   def sum_along_dims(self, dims: Collection[str]) -> 'AggregationState':
-- 
2.43.0


From 861a8809d275785275f36ea40f48bc0cba2990c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 06/44] fix: remove the temporary file when moving it fails,
 reject directories

---
 weatherbenchX/beam_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_utils.py b/weatherbenchX/beam_utils.py
index 5ee79e7..a819722 100644
--- a/weatherbenchX/beam_utils.py
+++ b/weatherbenchX/beam_utils.py
@@ -93,9 +93,11 @@ def atomic_write(
   try:
     with filesystem.open(tmp_file_path, mode='wb') as f:
       f.write(data)
+    if filesystem.isdir(file_path):
+      # Some filesystems would move the temporary file into the directory.
+      raise IsADirectoryError(file_path)
+    filesystem.mv(tmp_file_path, file_path, overwrite=True)
   except BaseException:
     with contextlib.suppress(FileNotFoundError):
       filesystem.rm(tmp_file_path)
     raise
-  else:
-    filesystem.mv(tmp_file_path, file_path, overwrite=True)
-- 
2.43.0


From 95450d04521c514651a68f7d08f654caa34a4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 07/44] fix: ranked probability scores of missing values are
 missing, not zero

---
 weatherbenchX/metrics/categorical.py   | 2 +-
 weatherbenchX/metrics/probabilistic.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..de88541 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    return ((predictions - targets) ** 2).sum(self._bin_dim, skipna=False)
 
 
 # Metrics
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..78c9e84 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -473,8 +473,9 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         'tmp'
     ]
 
-    # RPS is the sum of squared errors over the bin dimension.
-    return cdf_mse.sum(self._bin_dim, skipna=self._skipna_ensemble)
+    # RPS is the sum of squared errors over the bin dimension. skipna_ensemble
+    # only concerns missing ensemble members: a missing CDF value stays missing.
+    return cdf_mse.sum(self._bin_dim, skipna=False)
 
 
 ### Metrics
-- 
2.43.0


From 7847a318895aeff02c32a439454fbfddddc5d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 08/44] fix: keep missing values in confidence, coverage and
 Jaccard scores

---
 weatherbenchX/metrics/categorical.py | 35 +++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index de88541..87ef504 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -735,15 +735,23 @@ class Confident(base.PerVariableStatisticWithClimatology):
 
     # Get the spread of the predictions.
     predictions_spread = predictions.quantile(
-        self._spread_high, dim=self._ensemble_dim
-    ) - predictions.quantile(self._spread_low, dim=self._ensemble_dim)
+        self._spread_high, dim=self._ensemble_dim, skipna=False
+    ) - predictions.quantile(
+        self._spread_low, dim=self._ensemble_dim, skipna=False
+    )
 
     # Climatologies are already quantiles.
     climatology_spread = aligned_climatology.sel(
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    confident = (
+        predictions_spread < self._confidence_threshold * climatology_spread
+    )
+    # Make sure NaNs are preserved.
+    return confident.where(
+        ~np.isnan(predictions_spread - climatology_spread)
+    ).astype(np.float32)
 
 
 class Covered(base.PerVariableStatistic):
@@ -776,12 +784,16 @@ class Covered(base.PerVariableStatistic):
   ) -> xr.DataArray:
     """Computes coverage per variable."""
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
+    )
+    covered = (predictions_low <= targets) & (targets <= predictions_high)
+    # Make sure NaNs are preserved.
+    return covered.where(~np.isnan(predictions_low + targets)).astype(
+        np.float32
     )
-    return (predictions_low <= targets) & (targets <= predictions_high)
 
 
 class JaccardDistant(base.PerVariableStatisticWithClimatology):
@@ -825,10 +837,10 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     """Computes jaccard distance per variable."""
     del targets  # Unused.
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
     climatology_low = aligned_climatology.sel(quantile=self._interval_low)
     climatology_high = aligned_climatology.sel(quantile=self._interval_high)
@@ -859,7 +871,12 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    # Make sure NaNs are preserved.
+    return (
+        (jaccard_distance > self._threshold)
+        .where(~np.isnan(union_length))
+        .astype(np.float32)
+    )
 
 
 class Opportunism(base.PerVariableMetric):
-- 
2.43.0


From 9d66ed2b9262e012943255c687d5be15e4e786f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 09/44] fix: CRPSEnsembleDistance skips missing members in all
 its parts

---
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 78c9e84..59d272e 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -633,7 +633,10 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
   @property
   def statistics(self) -> Mapping[str, base.Statistic]:
     return {
-        'CRPSSkill': CRPSSkill(ensemble_dim=self._ensemble_dim),
+        'CRPSSkill': CRPSSkill(
+            ensemble_dim=self._ensemble_dim,
+            skipna_ensemble=self._skipna_ensemble,
+        ),
         'CRPSSpread': CRPSSpread(
             ensemble_dim=self._ensemble_dim,
             use_sort=self._use_sort,
@@ -645,6 +648,7 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
             use_sort=self._use_sort,
             fair=self._fair,
             which='targets',
+            skipna_ensemble=self._skipna_ensemble,
         ),
     }
 
-- 
2.43.0


From af9439f36f08a91fbd5a0089b5cf0319d86f7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 10/44] fix: keep missing values in rank histograms

---
 weatherbenchX/metrics/probabilistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 59d272e..fb08bcb 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1221,5 +1221,8 @@ class RankHistogram(base.PerVariableStatistic):
     categories = xr.DataArray(np.arange(num_bins), dims=['rank'])
     categories.coords['rank'] = categories
 
+    # A missing target or ensemble member has no rank.
+    missing = predictions.isnull().any(self._ensemble_dim) | targets.isnull()
+
     # Transform to floating point for the subsequent aggregation.
-    return (ranks == categories).astype(np.float32)
+    return (ranks == categories).where(~missing).astype(np.float32)
-- 
2.43.0


From 2d2eea2eb0c3b8d4170b15c8ca48ab11240151bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 11/44] fix: keep missing values in ensemble error exceedance

---
 weatherbenchX/metrics/probabilistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index fb08bcb..4027642 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -740,7 +740,8 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
       targets: xr.DataArray,
   ) -> xr.DataArray:
     out = super()._compute_per_variable(predictions, targets)
-    return out.mean(dim=self._ensemble_dim)
+    # Make sure NaNs are preserved.
+    return out.mean(dim=self._ensemble_dim, skipna=False)
 
 
 class UnbiasedEnsembleMeanRMSE(base.PerVariableMetric):
-- 
2.43.0


From 3342077f91ff534ab3fc85db246e219b1d99e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 12/44] fix: accept any iterable of thresholds in
 binarize_thresholds

---
 weatherbenchX/metrics/wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index e0b0522..49682aa 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -80,6 +80,8 @@ def binarize_thresholds(
     )
     threshold = thresholds
   else:
+    # Any iterable of floats: xarray itself would reject e.g. a tuple.
+    thresholds = np.array(list(thresholds))
     threshold = xr.DataArray(
         thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
     )
-- 
2.43.0


From 38a64f7e3173a164b3889d45dd518407342586d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 13/44] fix: keep variable names through chained input
 transforms

---
 weatherbenchX/metrics/wrappers.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 49682aa..830a6de 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -794,16 +794,15 @@ class WrappedStatistic(base.Statistic):
       predictions: Mapping[Hashable, xr.DataArray],
       targets: Mapping[Hashable, xr.DataArray],
   ) -> Mapping[Hashable, xr.DataArray]:
+    def transform_fn(da: xr.DataArray) -> xr.DataArray:
+      # Some transforms lose the variable name, which later transforms with
+      # per-variable thresholds look up.
+      return self.transform.transform_fn(da).rename(da.name)
+
     if self.transform.which in ('predictions', 'both'):
-      predictions = xarray_tree.map_structure(
-          self.transform.transform_fn,
-          predictions,
-      )
+      predictions = xarray_tree.map_structure(transform_fn, predictions)
     if self.transform.which in ('targets', 'both'):
-      targets = xarray_tree.map_structure(
-          self.transform.transform_fn,
-          targets,
-      )
+      targets = xarray_tree.map_structure(transform_fn, targets)
     return self.statistic.compute(predictions, targets)
 
 
-- 
2.43.0


From 7072243ced1ae2a10d146ab9a2fd26811f070d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 14/44] fix: keep the neighborhood-averaged mask aligned with
 its dimensions

---
 weatherbenchX/metrics/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 4a9c595..231ce4f 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -74,8 +74,10 @@ def neighborhood_averaging_for_single_size(
     )
     # This should be new_mask == 1 but there are some rounding errors in
     # convolve2d, so that this fails. Therefore, we use isclose.
-    new_mask = np.isclose(new_mask, True)
-    out.coords['mask'][:] = new_mask.astype(bool)
+    # new_mask's dimensions may be in a different order than on the input.
+    out = out.assign_coords(
+        mask=(new_mask.dims, np.isclose(new_mask, True).astype(bool))
+    )
   return out
 
 
-- 
2.43.0


From cd6b4a946324d91350939eb44c8ce45ef8019653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 15/44] fix: support boolean inputs for FSS with a neighborhood
 of one pixel

---
 weatherbenchX/metrics/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 231ce4f..8ad58aa 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -33,7 +33,8 @@ def convolve2d_wrap_longitude(
   # harmonics space, which would be faster.
   """Convolve2d with optional wrap around longitude."""
   if neighborhood_size == 1:
-    return x
+    # As below, boolean inputs need to be converted to float.
+    return x.astype(np.float32)
   if neighborhood_size % 2 != 1:
     raise ValueError('neighborhood_size must be odd.')
   half_n = (neighborhood_size - 1) // 2
-- 
2.43.0


From 29a5fb54eff499b6cc6b78d75ec8433dc0b9dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 16/44] fix: give all FSS statistics the same neighborhood mask

---
 weatherbenchX/metrics/spatial.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 8ad58aa..fe6847e 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -102,6 +102,17 @@ def neighborhood_averaging(
     )
 
 
+def _neighborhood_zeros(
+    da: xr.DataArray,
+    neighborhood_size: Union[int, Iterable[int]],
+    wrap_longitude: bool = False,
+) -> xr.DataArray:
+  """Zeros like da, with the mask (if any) that neighborhood averages have."""
+  if 'mask' in da.coords:
+    da = neighborhood_averaging(da, neighborhood_size, wrap_longitude)
+  return xr.zeros_like(da)
+
+
 def get_suffix(
     neighborhood_size: Union[int, Iterable[int]],
     wrap_longitude: bool = False,
@@ -161,7 +172,9 @@ class SquaredPredictionFraction(base.PerVariableStatistic):
     predictions = neighborhood_averaging(
         predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
-    return predictions**2 + xr.zeros_like(targets)
+    return predictions**2 + _neighborhood_zeros(
+        targets, self.neighborhood_size_in_pixels, self.wrap_longitude
+    )
 
 
 @dataclasses.dataclass
@@ -184,7 +197,9 @@ class SquaredTargetFraction(base.PerVariableStatistic):
     targets = neighborhood_averaging(
         targets, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
-    return targets**2 + xr.zeros_like(predictions)
+    return targets**2 + _neighborhood_zeros(
+        predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
+    )
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 5e3c69dc4d0cf89d1f15998bc51e1a63a3bf939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 17/44] fix: extrapolate when interpolating to several
 independent coordinates

---
 weatherbenchX/interpolations.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..e620711 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -93,6 +93,25 @@ def interpolate_to_coords(
     extrapolate_out_of_bounds: bool = True,
 ) -> xr.DataArray:
   """Interpolate to a fixed set of coordinates."""
+  if len(dim_args) > 1 and method in ('linear', 'slinear', 'nearest'):
+    # For these methods xarray interpolates one after the other dimensions whose
+    # new coordinates are independent of the rest. Do this here, because 1D
+    # interpolation needs different arguments (see below).
+    dims = {k: getattr(v, 'dims', (k,)) for k, v in dim_args.items()}
+    for dim in dim_args:
+      if all(dim not in dims[k] for k in dims if k != dim) and (
+          dims[dim] == (dim,)
+      ):
+        rest = {k: v for k, v in dim_args.items() if k != dim}
+        return interpolate_to_coords(
+            interpolate_to_coords(
+                da, {dim: dim_args[dim]}, method, extrapolate_out_of_bounds
+            ),
+            rest,
+            method,
+            extrapolate_out_of_bounds,
+        )
+
   if extrapolate_out_of_bounds:
     # See xarray documentation for interpolation behaviour.
     # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
-- 
2.43.0


From 8439ac93e08ae5620e8173605aabac078e68c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 18/44] fix: interpolate linearly to the coordinate of a single
 data point

---
 weatherbenchX/interpolations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index e620711..115dfcd 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -112,6 +112,13 @@ def interpolate_to_coords(
             extrapolate_out_of_bounds,
         )
 
+  single_point = len(dim_args) == 1 and da.sizes[next(iter(dim_args))] == 1
+  if single_point and method in ('linear', 'slinear'):
+    # Linear interpolation in 1D returns NaN for a single data point (e.g. a
+    # single lead time) even if the new coordinate is that of the data.
+    method = 'nearest'
+    extrapolate_out_of_bounds = False
+
   if extrapolate_out_of_bounds:
     # See xarray documentation for interpolation behaviour.
     # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
-- 
2.43.0


From 0c172dd45f8cc7cd2403938e507edb28be8231bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 19/44] fix: pad longitudes that are not ascending correctly

---
 weatherbenchX/interpolations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 115dfcd..37c8aab 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -79,6 +79,7 @@ class MultipleInterpolation(Interpolation):
 
 def pad_longitude(da: xr.DataArray) -> xr.DataArray:
   """Pad longitude values to allow for wrapped interpolation."""
+  da = da.sortby('longitude')
   left = da.isel(longitude=[-1])
   left = left.assign_coords(longitude=left.longitude.values - 360)
   right = da.isel(longitude=[0])
-- 
2.43.0


From 32d16222844c19afbfee63fb2c82377c2927d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 20/44] fix: wrap longitudes of interpolation targets in any
 convention

---
 weatherbenchX/interpolations.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 37c8aab..34de28c 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -92,8 +92,26 @@ def interpolate_to_coords(
     dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
     method: str,
     extrapolate_out_of_bounds: bool = True,
+    wrap_longitude: bool = False,
 ) -> xr.DataArray:
   """Interpolate to a fixed set of coordinates."""
+  if wrap_longitude and 'longitude' in dim_args:
+    # Look up new longitudes in the range covered by the (padded) data, whatever
+    # convention they use, but keep their own values on the output.
+    longitude = dim_args['longitude']
+    turns = np.floor((longitude - da.longitude.values.min()) / 360)
+    wrapped_longitude = longitude - 360 * turns
+    if isinstance(wrapped_longitude, xr.DataArray):
+      wrapped_longitude = wrapped_longitude.drop_vars(
+          'longitude', errors='ignore'
+      )
+    return interpolate_to_coords(
+        da,
+        {**dim_args, 'longitude': wrapped_longitude},
+        method,
+        extrapolate_out_of_bounds,
+    ).assign_coords(longitude=longitude)
+
   if len(dim_args) > 1 and method in ('linear', 'slinear', 'nearest'):
     # For these methods xarray interpolates one after the other dimensions whose
     # new coordinates are independent of the rest. Do this here, because 1D
@@ -234,6 +252,7 @@ class InterpolateToFixedCoords(Interpolation):
         self._coords,
         self._method,
         self._extrapolate_out_of_bounds,
+        self._wrap_longitude,
     )
     return interpolated_da
 
@@ -313,6 +332,7 @@ class InterpolateToReferenceCoords(Interpolation):
         dim_args,
         self._method,
         self._extrapolate_out_of_bounds,
+        self._wrap_longitude,
     )
     return da_like_reference
 
-- 
2.43.0


From d765a8ec7c17894d30fab91cac23bb3aa744b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 21/44] fix: clip descending reference coordinates

---
 weatherbenchX/interpolations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 34de28c..eb54799 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -307,9 +307,11 @@ class InterpolateToReferenceCoords(Interpolation):
 
     if self._clip_reference_coords is not None:
       for coord in self._clip_reference_coords:
-        reference = reference.sel(
-            {coord: slice(da[coord].min(), da[coord].max())}
+        # Does not assume that the reference coordinate is ascending.
+        within_extent = (reference[coord] >= da[coord].min()) & (
+            reference[coord] <= da[coord].max()
         )
+        reference = reference.isel({coord: within_extent.values})
 
     # If dims not explicit, interpolate all dims that have a corresponding
     # coordinate in the reference.
-- 
2.43.0


From 3c5cc12775fc75001738a5c1851fba39ee9e1fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 22/44] fix: altitude adjustment of an empty set of targets

---
 weatherbenchX/interpolations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index eb54799..f5d2241 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -400,6 +400,8 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       da.coords['grid_elevation'] = self._grid_elevation.compute()
 
     da_like_reference = super().interpolate_data_array(da, reference)
+    if da_like_reference.size == 0:
+      return da_like_reference  # Nothing to adjust.
     if da.name in ['2m_temperature', '10m_wind_speed']:
       # Positive if station is higher than grid.
       sparse_higher_than_grid_m = (
-- 
2.43.0


From a9af4fb678690da80a1a442ec4ea90aa376cba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 23/44] fix: do not add coordinates to the caller's data in
 altitude adjustment

---
 weatherbenchX/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index f5d2241..925d512 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -397,7 +397,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
     if da.name in ['2m_temperature', '10m_wind_speed']:
-      da.coords['grid_elevation'] = self._grid_elevation.compute()
+      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
     if da_like_reference.size == 0:
-- 
2.43.0


From f9cc49130d17d9375a813ba9ec28d3836205003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 24/44] fix: do not add masks to the caller's data in
 add_nan_mask_to_data

---
 weatherbenchX/data_loaders/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/base.py b/weatherbenchX/data_loaders/base.py
index 16370d4..ade2d33 100644
--- a/weatherbenchX/data_loaders/base.py
+++ b/weatherbenchX/data_loaders/base.py
@@ -52,7 +52,7 @@ def add_nan_mask_to_data(
   data = dict(data)
   for var in data:
     if variable_subset is None or var in variable_subset:
-      data[var].coords['mask'] = ~np.isnan(data[var])
+      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
   return data
 
 
-- 
2.43.0


From 27c348186ce283cbba30b49933f45ed017545c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 25/44] fix: skip data loaders without an available forecast in
 MultipleConstantLatencyWrapper

---
 weatherbenchX/data_loaders/latency_wrappers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..1d8100c 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -256,9 +256,14 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
     )
 
   def _get_data_loader(self, init_time):
+    data_loaders = []
     lead_time_offsets_and_latencies = []
     for data_loader in self._data_loaders:
-      available_init_time = data_loader.get_available_init_time(init_time)
+      try:
+        available_init_time = data_loader.get_available_init_time(init_time)
+      except ValueError:  # No forecast available (yet) from this data loader.
+        continue
+      data_loaders.append(data_loader)
       lead_time_offset = init_time - available_init_time
       # Break ties by picking the data loader with largest latency -- note that
       # we make latency negative here because we want the smallest
@@ -266,6 +271,8 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
       lead_time_offsets_and_latencies.append(
           (lead_time_offset, -data_loader.latency)
       )
+    if not data_loaders:
+      raise ValueError(f'No forecast is available for init time {init_time}.')
     lead_time_offsets_and_latencies = np.array(
         lead_time_offsets_and_latencies,
         dtype=[
@@ -277,7 +284,7 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
         lead_time_offsets_and_latencies,
         order=('lead_time_offset', 'neg_latency'),
     )
-    most_recent_data_loader = self._data_loaders[idx[0]]
+    most_recent_data_loader = data_loaders[idx[0]]
     logging.info(
         'Init time: %s, data loader latency: %s',
         init_time,
-- 
2.43.0


From 7f3c5b35663b396fdd470325031022b9e420a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 26/44] fix: forward add_values_to_coords in latency wrappers

---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index 1d8100c..260e38e 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -89,6 +89,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
         process_chunk_fn=data_loader._process_chunk_fn,
+        add_values_to_coords=data_loader._add_values_to_coords,
     )
 
   def get_available_init_time(self, init_time: np.datetime64) -> np.datetime64:
-- 
2.43.0


From 7dfe337df916d0c29ed29623ad335817d7ea8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 27/44] fix: accept any sequence of variables in
 SparseObservationsFromParquet

---
 weatherbenchX/data_loaders/sparse_parquet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..938de96 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -159,7 +159,7 @@ class SparseObservationsFromParquet(base.DataLoader):
       raise ValueError(f'Unsupported partitioned_by: {partitioned_by}')
     self._partitioned_by = partitioned_by
     self._time_dim = time_dim
-    self._variables = variables
+    self._variables = list(variables)
     self._coordinate_variables = list(coordinate_variables) + ['valid_time']
     self._split_variables = split_variables
     self._dropna = dropna
-- 
2.43.0


From cf25a59f6ff34f58240edea05b811006ade5312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 28/44] fix: load the requested lead time interval of sparse
 observations

---
 weatherbenchX/data_loaders/sparse_parquet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 938de96..47cb318 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -206,13 +206,14 @@ class SparseObservationsFromParquet(base.DataLoader):
   ) -> xr.Dataset:
     """Load data for some valid time.
 
-    If lead_time_slice is given, load data for valid_time +/- lead_time_slice.
+    If lead_time_slice is given, load data for the interval from
+    valid_time + lead_time_slice.start to valid_time + lead_time_slice.stop.
     Otherwise, tolerance and file tolerance are applied around valid_time.
 
     Args:
       valid_time: Base time to load data for.
-      lead_time_slice: (Optional) If given, load data for valid_time +/-
-        lead_time_slice.
+      lead_time_slice: (Optional) If given, load data for the interval of lead
+        times between its start and stop.
 
     Returns:
       xarray.Dataset with data for the given valid_time.
@@ -223,7 +224,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 87d588ec9206f44b529465ea0dbc4aeb147886b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 29/44] fix: check for uniform steps of datetime coordinates in
 the t-tests

---
 weatherbenchX/statistical_inference/t_test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/t_test.py b/weatherbenchX/statistical_inference/t_test.py
index 2f35fab..2905411 100644
--- a/weatherbenchX/statistical_inference/t_test.py
+++ b/weatherbenchX/statistical_inference/t_test.py
@@ -54,7 +54,9 @@ def _check_uniform_step(
     data_array: xr.DataArray, dim: str) -> None:
   """Checks that any name coordinate for `dim` has uniform steps."""
   coord = data_array.coords.get(dim)
-  if coord is not None and np.issubdtype(coord.dtype, np.number):
+  if coord is not None and (
+      np.issubdtype(coord.dtype, np.number)
+      or np.issubdtype(coord.dtype, np.datetime64)):
     _check_constant(coord.diff(dim), dim, 'Non-uniform timestep not supported.')
 
 
-- 
2.43.0


From ba14f0120b03334d7a97a229eca8737d200d2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 30/44] fix: bootstrap p-values where replicates are tied at
 the null value

---
 weatherbenchX/statistical_inference/bootstrap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..f03fc03 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -115,8 +115,13 @@ class Bootstrap(base.StatisticalInferenceMethod):
         return np.nan
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
+      # Where replicates are tied at null_value (e.g. when comparing identical
+      # forecasts) it corresponds to a range of quantiles, and interp returns
+      # the upper end of this range. So we can't use 1 - cdf here.
       empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      empirical_survival_at_null = np.interp(-null_value, -data[::-1], q)
+      return min(
+          1., 2 * min(empirical_cdf_at_null, empirical_survival_at_null))
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From 4a6c8df6a420fe2bc16fe1676ac47b080beda32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 31/44] fix: don't count missing statistics as zero in the
 stationary bootstrap

---
 weatherbenchX/statistical_inference/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index f03fc03..e905db3 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -550,7 +550,7 @@ class StationaryBootstrap(Bootstrap):
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From d32b710e975b4742a44b58540be141fce45454bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 32/44] fix: unique names of deterministic statistics identify
 all parameters

---
 weatherbenchX/metrics/deterministic.py | 31 +++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b9f84f4..fd6b10e 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -14,6 +14,7 @@
 """Implementation of deterministic metrics and assiciated statistics."""
 from absl import logging
 from collections.abc import Hashable
+import hashlib
 from typing import Iterable, Mapping, Sequence, Union
 import jax
 import numpy as np
@@ -48,6 +49,10 @@ class RelativeIntensity(base.PerVariableStatistic):
     """
     self._spatial_dims = spatial_dims
 
+  @property
+  def unique_name(self) -> str:
+    return 'RelativeIntensity_' + ','.join(self._spatial_dims)
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -135,6 +140,11 @@ class PredictionPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_targets = copy_nans_from_targets
 
+  @property
+  def unique_name(self) -> str:
+    suffix = '_copy_nans_from_targets' if self._copy_nans_from_targets else ''
+    return 'PredictionPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -159,6 +169,15 @@ class TargetPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_predictions = copy_nans_from_predictions
 
+  @property
+  def unique_name(self) -> str:
+    suffix = (
+        '_copy_nans_from_predictions'
+        if self._copy_nans_from_predictions
+        else ''
+    )
+    return 'TargetPassthrough' + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -200,7 +219,10 @@ class WindVectorSquaredError(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    suffix = '_'.join(self._vector_name)
+    suffix = '_'.join(
+        f'{vector}={u},{v}'
+        for u, v, vector in zip(self._u_name, self._v_name, self._vector_name)
+    )
     return 'WindVectorSquaredError_' + suffix
 
   def compute(
@@ -278,6 +300,13 @@ class ErrorExceedance(base.PerVariableStatistic):
       )
     self._thresholds = thresholds
 
+  @property
+  def unique_name(self) -> str:
+    # Thresholds can be large arrays, so identify them by a digest.
+    thresholds = repr(self._thresholds.to_dict())
+    digest = hashlib.sha256(thresholds.encode()).hexdigest()[:16]
+    return f'{type(self).__name__}_{digest}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
-- 
2.43.0


From 66817c81d91302552948150a86815fbe4ba71115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 33/44] fix: unique names of categorical statistics identify
 all parameters

---
 weatherbenchX/metrics/categorical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 87ef504..85bc5f3 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -175,7 +175,7 @@ class SEEPS(base.Statistic):
   @property
   def unique_name(self) -> str:
     suffix = (
-        '_'.join(self._variables)
+        ','.join(self._variables)
         + '_dry_threshold_mm_'
         + '_'.join([str(s) for s in self._dry_threshold_mm])
         + '_min_p1_'
@@ -330,7 +330,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return 'RankedProbabilityScore'
+    return f'RankedProbabilityScore_{self._bin_dim}'
 
   def _compute_per_variable(
       self,
@@ -719,6 +719,7 @@ class Confident(base.PerVariableStatisticWithClimatology):
   def unique_name(self) -> str:
     return (
         'Confident'
+        + f'_ensemble_dim={self._ensemble_dim}'
         + f'_conf_thres={self._confidence_threshold}'
         + f'_spread_low={self._spread_low}'
         + f'_spread_high={self._spread_high}'
@@ -773,6 +774,7 @@ class Covered(base.PerVariableStatistic):
   def unique_name(self) -> str:
     return (
         'Covered'
+        + f'_ensemble_dim={self._ensemble_dim}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
     )
@@ -823,6 +825,7 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
   def unique_name(self) -> str:
     return (
         'JaccardDistant'
+        + f'_ensemble_dim={self._ensemble_dim}'
         + f'_threshold={self._threshold}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
-- 
2.43.0


From 1dc1e004d4c110a4035d17312db18a93466acd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 34/44] fix: unique names of probabilistic statistics identify
 all parameters

---
 weatherbenchX/metrics/probabilistic.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 4027642..690e529 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -48,7 +48,13 @@ class EnsembleAveragedStatistic(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    return self._wrapped_statistic.unique_name + '_each_' + self._ensemble_dim
+    suffix = '_skipna' if self._skipna_ensemble else ''
+    return (
+        self._wrapped_statistic.unique_name
+        + '_each_'
+        + self._ensemble_dim
+        + suffix
+    )
 
   def compute(
       self,
@@ -124,7 +130,8 @@ class CRPSSkill(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return f'CRPSSkill_{self._ensemble_dim}'
+    suffix = '_skipna' if self._skipna_ensemble else ''
+    return f'CRPSSkill_{self._ensemble_dim}{suffix}'
 
   def _compute_per_variable(
       self,
@@ -189,7 +196,8 @@ class CRPSSpread(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     fair_str = 'fair' if self._fair else 'unfair'
-    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+    suffix = '_skipna' if self._skipna_ensemble else ''
+    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}{suffix}'
 
   def _compute_per_variable(
       self,
@@ -407,6 +415,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     self._fair = fair
     self._bin_dim = bin_dim
     self._unique_name_suffix = unique_name_suffix
+    self._right_inclusive = right_inclusive
 
     binned_prediction_wrapper = wrappers.ContinuousToCDF(
         which='predictions',
@@ -458,6 +467,8 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         f'RankedProbabilityScore_{self._ensemble_dim}_'
         f'skipna_ensemble_{self._skipna_ensemble}_'
         f'fair_{self._fair}_'
+        f'right_inclusive_{self._right_inclusive}_'
+        f'{self._bin_dim}_'
         f'{self._unique_name_suffix}'
     )
 
@@ -734,6 +745,10 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
     super().__init__(thresholds=thresholds)
     self._ensemble_dim = ensemble_dim
 
+  @property
+  def unique_name(self) -> str:
+    return f'{super().unique_name}_{self._ensemble_dim}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -1041,7 +1056,7 @@ class RelativeEconomicValue(base.Metric):
     if self._thresholds is None:
       self._thresholds = (np.arange(ensemble_size) + 0.5) / ensemble_size
       if statistic_suffix is None:
-        statistic_suffix = 'all_thresholds_for_ensemble_size'
+        statistic_suffix = f'all_thresholds_for_ensemble_size_{ensemble_size}'
     if not np.all(self._thresholds >= 0.0) or not np.all(
         self._thresholds <= 1.0
     ):
-- 
2.43.0


From 2ab3422e75a7afce73d0431ee03dc45a1f79ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 35/44] fix: unique names of wrapped statistics identify all
 parameters

---
 weatherbenchX/metrics/wrappers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 830a6de..b65df0c 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -495,7 +495,10 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    return (
+        'ensemble_to_probabilistic_by_weibull_plotting_position_'
+        f'{self._ensemble_dim=}_{self._skipna=}'
+    )
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
@@ -889,7 +892,7 @@ class SubselectVariablesForStatistic(base.Statistic):
   def unique_name(self) -> str:
     # Make sure to change unique name in case there is another, non-subsetted
     # statistic with the same name.
-    variables_str = '_'.join(self.variables)
+    variables_str = ','.join(self.variables)
     return f'{self.statistic.unique_name}_{variables_str}'
 
   def compute(
-- 
2.43.0


From 8342b7854e7f994609f2a140d20a8d2d50d82866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 36/44] fix: tell neighborhood size n and [n] apart in FSS
 unique names

---
 weatherbenchX/metrics/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index fe6847e..945fda3 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -118,7 +118,8 @@ def get_suffix(
     wrap_longitude: bool = False,
 ):
   if isinstance(neighborhood_size, Iterable):
-    suffix = ','.join([str(t) for t in neighborhood_size])
+    # Unlike a single size, these give a `neighborhood_size` dimension.
+    suffix = '[' + ','.join([str(t) for t in neighborhood_size]) + ']'
   else:
     suffix = str(neighborhood_size)
   if wrap_longitude:
-- 
2.43.0


From 31883a1287591244cd9021f8c78d34ecb0879ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:12 +0000
Subject: [PATCH 37/44] Revert "fix: check for uniform steps of datetime
 coordinates in the t-tests"

This reverts commit 87d588ec9206f44b529465ea0dbc4aeb147886b5.
---
 weatherbenchX/statistical_inference/t_test.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/weatherbenchX/statistical_inference/t_test.py b/weatherbenchX/statistical_inference/t_test.py
index 2905411..2f35fab 100644
--- a/weatherbenchX/statistical_inference/t_test.py
+++ b/weatherbenchX/statistical_inference/t_test.py
@@ -54,9 +54,7 @@ def _check_uniform_step(
     data_array: xr.DataArray, dim: str) -> None:
   """Checks that any name coordinate for `dim` has uniform steps."""
   coord = data_array.coords.get(dim)
-  if coord is not None and (
-      np.issubdtype(coord.dtype, np.number)
-      or np.issubdtype(coord.dtype, np.datetime64)):
+  if coord is not None and np.issubdtype(coord.dtype, np.number):
     _check_constant(coord.diff(dim), dim, 'Non-uniform timestep not supported.')
 
 
-- 
2.43.0


From fa9efb7a53d185dee6f50ec8d7510105d22c5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 38/44] fix: metrics without any variable left in beam
 pipelines

---
 weatherbenchX/beam_pipeline.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 891b439..aeedae3 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -363,6 +363,17 @@ class ComputeMetrics(beam.DoFn):
     logging.log_first_n(
         logging.INFO, 'ComputeMetrics inputs: %s', 10, aggregation_state
     )
+    # Statistics of which every variable was filtered out during aggregation
+    # have no elements in the pipeline.
+    no_variables = {
+        statistic.unique_name: {}
+        for metric in self.metrics.values()
+        for statistic in metric.statistics.values()
+    }
+    aggregation_state = aggregation.AggregationState(
+        no_variables | aggregation_state.sum_weighted_statistics,
+        no_variables | aggregation_state.sum_weights,
+    )
     return [aggregation_state.metric_values(self.metrics)]
 
 
-- 
2.43.0


From e6370f485a0d2bb729fdd38e7d9f185d80a56199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 39/44] fix: no square brackets in FSS unique names, which
 cannot be used in paths

---
 weatherbenchX/metrics/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 945fda3..c8c99b2 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -118,8 +118,10 @@ def get_suffix(
     wrap_longitude: bool = False,
 ):
   if isinstance(neighborhood_size, Iterable):
-    # Unlike a single size, these give a `neighborhood_size` dimension.
-    suffix = '[' + ','.join([str(t) for t in neighborhood_size]) + ']'
+    suffix = ','.join([str(t) for t in neighborhood_size])
+    if ',' not in suffix:
+      # Unlike a single size, this gives a `neighborhood_size` dimension.
+      suffix += ','
   else:
     suffix = str(neighborhood_size)
   if wrap_longitude:
-- 
2.43.0


From 697dabbeba8a1994111249fbc208cb888e1b2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 40/44] fix: zero weight for combinations of chunks without
 data

---
 weatherbenchX/beam_pipeline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index aeedae3..8403717 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -292,7 +292,13 @@ class ConcatPerStatisticPerVariable(beam.PTransform):
       # since combine_by_coords will return a Dataset in this case.
       if not data_arrays:
         return key, xr.DataArray()
-      return key, xr.combine_by_coords(data_arrays)
+      # As in AggregationState.sum, combinations of init_time and lead_time that
+      # no chunk has any data for have zero weight.
+      combined = xr.combine_by_coords(
+          [d.to_dataset(name='combined') for d in data_arrays],
+          fill_value={'combined': 0},
+      )['combined']
+      return key, combined.rename(None)
 
     return (
         pcoll
-- 
2.43.0


From d23c7cd2ce9e7db49e60b221170c03ba24fc9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 41/44] fix: write coordinates of statistics in unaggregated
 pipelines

---
 weatherbenchX/beam_pipeline.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 8403717..1f74f15 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -591,7 +591,17 @@ def _get_template_dataset(
 
   # Convert the first chunk into a template, with the proper init_time and
   # lead_time dimensions
-  template = xbeam.make_template(first_chunk)
+  # Coordinates along init_time or lead_time are expanded, and written along with
+  # the chunks, like variables. All others are the same for all chunks.
+  time_coords = [
+      k
+      for k, v in first_chunk.coords.items()
+      if k not in first_chunk.indexes
+      and not {'init_time', 'lead_time'}.isdisjoint(v.dims)
+  ]
+  template = xbeam.make_template(
+      first_chunk, lazy_vars={*first_chunk.keys(), *time_coords}
+  )
 
   if 'mask' in template.coords:
     raise ValueError(
@@ -599,6 +609,8 @@ def _get_template_dataset(
         'is not supported for unaggregated pipelines.'
     )
 
+  template = template.reset_coords(time_coords)
+
   if 'lead_time' in template.dims:
     vars_to_expand = [k for k, v in template.items() if 'lead_time' in v.dims]
     template = template.isel(lead_time=0, drop=True)
@@ -616,6 +628,8 @@ def _get_template_dataset(
     for k in vars_to_expand:
       template[k] = template[k].expand_dims(init_time=times.init_times)
 
+  template = template.set_coords(time_coords)
+
   if 'init_time' in template.dims and 'lead_time' in template.dims:
     template.coords['valid_time'] = template.init_time + template.lead_time
 
-- 
2.43.0


From e7f1cb7e0e21b73f2d39932b4c30ac73710c51c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 42/44] fix: lead time intervals in unaggregated pipelines

---
 weatherbenchX/beam_pipeline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 1f74f15..a956f1b 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -616,9 +616,8 @@ def _get_template_dataset(
     template = template.isel(lead_time=0, drop=True)
     lead_times = times.lead_times
     if isinstance(lead_times, slice):
-      lead_times = np.arange(
-          lead_times.start, lead_times.stop + lead_times.step, lead_times.step
-      )
+      # Slices are not chunked, so the first chunk contains all lead times.
+      lead_times = first_chunk['lead_time'].values
     for k in vars_to_expand:
       template[k] = template[k].expand_dims(lead_time=lead_times)
 
-- 
2.43.0


From 908318ce2e0dd9739a31fe43b672235e4a8a2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 43/44] fix: time chunks larger than the data in unaggregated
 pipelines

---
 weatherbenchX/beam_pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index a956f1b..2bef606 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -674,9 +674,9 @@ def define_unaggregated_pipeline(
   stat_chunks = {}
   for dim, size in dim_sizes.items():
     if dim == 'init_time':
-      stat_chunks[dim] = times.init_time_chunk_size or -1
+      stat_chunks[dim] = min(times.init_time_chunk_size or size, size)
     elif dim == 'lead_time':
-      stat_chunks[dim] = times.lead_time_chunk_size or -1
+      stat_chunks[dim] = min(times.lead_time_chunk_size or size, size)
     else:
       stat_chunks[dim] = size  # unchunked
 
-- 
2.43.0


From 48c69cd2b642597ccecd57023598dc61596850fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 44/44] fix: SEEPS of forecasts with latitudes in another order
 than the climatology

---
 weatherbenchX/metrics/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 85bc5f3..f45297b 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -286,7 +286,7 @@ class SEEPS(base.Statistic):
 
     # Mask out p1 thresholds
     mask = (p1 >= min_p1) & (p1 <= max_p1)
-    result = result.where(mask, np.nan)
+    result = result.where(mask)
 
     # Add NaN mask. If mask coordinate already exists, combine them.
     if hasattr(predictions, 'mask'):
-- 
2.43.0

