From b79f82d434b6020ba4608b181005c309a5fc9abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 01/33] fix: TimeChunks offsets for a lead_time interval

iter_with_chunk_offsets multiplied a None chunk size, so that every Beam
pipeline over a lead_time slice failed.
---
 weatherbenchX/time_chunks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..80d0d82 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -197,6 +197,9 @@ class TimeChunks(Iterable[TimeChunk]):
     """
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      # The chunk size is None for a lead_time slice, which is a single chunk.
+      lead_index = (self._lead_time_chunk_size or 0) * (
+          index % self._num_lead_chunks
+      )
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From 1ed0746507c8374f54bcb3fc1a9ed57f77b6b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 02/33] fix: a StopIteration while aggregating no longer drops
 statistics

A StopIteration raised by a binning, weighting or aggregator was taken for the
end of the statistics: all remaining statistics of the chunk were silently left
out of the result and the job succeeded.
---
 weatherbenchX/beam_pipeline.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 891b439..2c1ab9b 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -189,7 +189,10 @@ class ComputeStatisticsAggregateAndPrepareForCombine(beam.DoFn):
       try:
         # Compute stats.
         start_time = time.time()
-        stat_name, stats = next(stats_iter)
+        next_stat = next(stats_iter, None)
+        if next_stat is None:
+          break
+        stat_name, stats = next_stat
 
         # Create a short name so that it's more readable in dashboards.
         short_stat_name = (
@@ -236,8 +239,9 @@ class ComputeStatisticsAggregateAndPrepareForCombine(beam.DoFn):
               lead_time_offset=lead_time_offset,
           )
           yield aggregation_key, aggregation_state.sum_weights
-      except StopIteration:
-        break
+      except StopIteration as e:
+        # Not the end of stats_iter: raised while aggregating a statistic.
+        raise RuntimeError(f'Aggregation of {stat_name} failed.') from e
 
 
 class ConcatPerStatisticPerVariable(beam.PTransform):
-- 
2.43.0


From 7198f0c81a03c974b0e70f99ff80d527b70921e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 03/33] fix: unaggregated template for a lead_time interval

TimeChunks requires slices without a step, so the template used None as step.
---
 weatherbenchX/beam_pipeline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 2c1ab9b..b2a2885 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -591,9 +591,8 @@ def _get_template_dataset(
     template = template.isel(lead_time=0, drop=True)
     lead_times = times.lead_times
     if isinstance(lead_times, slice):
-      lead_times = np.arange(
-          lead_times.start, lead_times.stop + lead_times.step, lead_times.step
-      )
+      # A slice is always a single chunk, so the first one has all lead times.
+      lead_times = first_chunk.lead_time.values
     for k in vars_to_expand:
       template[k] = template[k].expand_dims(lead_time=lead_times)
 
-- 
2.43.0


From cf853059c6318ea98022f5f72105f1bffd9cf682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 04/33] fix: combine_results only skips result files that do
 not exist

Any error while reading a result file, a transient I/O error or a damaged file
included, was reported as "does not exist" and the model left out.
---
 public_benchmark/combine_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_benchmark/combine_results.py b/public_benchmark/combine_results.py
index c7c201e..58a2ca3 100644
--- a/public_benchmark/combine_results.py
+++ b/public_benchmark/combine_results.py
@@ -202,7 +202,7 @@ def process_results(model, year, resolution):
   fn = path.join(INPUT_DIR.value, f"{model}_{resolution}_{year}.nc")
   try:
     ds = open_nc(fn)
-  except Exception:  # pylint: disable=broad-exception-caught
+  except FileNotFoundError:
     print(fn, "does not exist.")
     return
 
-- 
2.43.0


From da20eec2325c4038b89df481b06497377f9a9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 05/33] fix: StationaryBootstrap treated missing units as zero

The sum over a resample skipped NaNs in the statistics but not in the weights, so
replicates that draw a unit with missing data were biased instead of NaN.
---
 weatherbenchX/statistical_inference/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..61868c9 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -545,7 +545,7 @@ class StationaryBootstrap(Bootstrap):
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From 003ba3d35d189994d8b6548a436f56bab19d9dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 06/33] fix: order of variables does not depend on string
 hashes

Sets of variable and metric names were iterated, so that the order of the
results, and with it the random draws of later resampling, differed between
processes.
---
 weatherbenchX/metrics/base.py                              | 5 ++++-
 weatherbenchX/metrics/probabilistic.py                     | 4 +++-
 weatherbenchX/statistical_inference/baseline_comparison.py | 6 ++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/metrics/base.py b/weatherbenchX/metrics/base.py
index a9f7144..4a37c0a 100644
--- a/weatherbenchX/metrics/base.py
+++ b/weatherbenchX/metrics/base.py
@@ -219,7 +219,10 @@ class PerVariableMetric(Metric):
     )
     values = {}
     # Compute values for all common variables.
-    for v in common_variables:
+    # The order must not depend on string hashes: keep that of the statistics.
+    for v in statistic_values[next(iter(self.statistics))]:
+      if v not in common_variables:
+        continue
       stats_per_variable = {s: statistic_values[s][v] for s in self.statistics}
       values[v] = self._values_from_mean_statistics_per_variable(
           stats_per_variable
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..6625eb7 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1121,7 +1121,9 @@ class RelativeEconomicValue(base.Metric):
         *[set(statistic_values[s]) for s in self.statistics]
     )
     values = {}
-    for var_name in common_variables:
+    for var_name in statistic_values[next(iter(self.statistics))]:
+      if var_name not in common_variables:
+        continue
       stats_per_variable = {
           s: statistic_values[s][var_name] for s in self.statistics
       }
diff --git a/weatherbenchX/statistical_inference/baseline_comparison.py b/weatherbenchX/statistical_inference/baseline_comparison.py
index 970ee06..2b34397 100644
--- a/weatherbenchX/statistical_inference/baseline_comparison.py
+++ b/weatherbenchX/statistical_inference/baseline_comparison.py
@@ -34,7 +34,8 @@ def difference(
 ) -> MetricResult:
   return {
       k: main_result[k] - baseline_result[k]
-      for k in main_result.keys() & baseline_result.keys()
+      for k in main_result
+      if k in baseline_result
   }
 
 
@@ -175,5 +176,6 @@ def for_metrics(
   return {
       name: BaselineComparison(
           metrics[name], baseline_metrics[name], comparison)
-      for name in metrics.keys() & baseline_metrics.keys()
+      for name in metrics
+      if name in baseline_metrics
   }
-- 
2.43.0


From f2ab0f51a80261196c5154e1c844ab461258ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 07/33] fix: ConstantLatencyWrapper keeps add_values_to_coords

The option of the wrapped loader was silently dropped.
---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..5332825 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -89,6 +89,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
         process_chunk_fn=data_loader._process_chunk_fn,
+        add_values_to_coords=data_loader._add_values_to_coords,
     )
 
   def get_available_init_time(self, init_time: np.datetime64) -> np.datetime64:
-- 
2.43.0


From ded6ac2cfd84c42a6940cc755ff894620053516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 08/33] fix: MultipleConstantLatencyWrapper with a stream not
 issued yet

A request failed as soon as one of the streams had nothing issued, although
another one had.
---
 weatherbenchX/data_loaders/latency_wrappers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index 5332825..5df727d 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -258,8 +258,13 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
 
   def _get_data_loader(self, init_time):
     lead_time_offsets_and_latencies = []
+    candidates = []
     for data_loader in self._data_loaders:
-      available_init_time = data_loader.get_available_init_time(init_time)
+      try:
+        available_init_time = data_loader.get_available_init_time(init_time)
+      except ValueError:  # This data loader has nothing issued yet.
+        continue
+      candidates.append(data_loader)
       lead_time_offset = init_time - available_init_time
       # Break ties by picking the data loader with largest latency -- note that
       # we make latency negative here because we want the smallest
@@ -267,6 +272,8 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
       lead_time_offsets_and_latencies.append(
           (lead_time_offset, -data_loader.latency)
       )
+    if not candidates:
+      raise ValueError(f'No forecast had been issued yet at {init_time}.')
     lead_time_offsets_and_latencies = np.array(
         lead_time_offsets_and_latencies,
         dtype=[
@@ -278,7 +285,7 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
         lead_time_offsets_and_latencies,
         order=('lead_time_offset', 'neg_latency'),
     )
-    most_recent_data_loader = self._data_loaders[idx[0]]
+    most_recent_data_loader = candidates[idx[0]]
     logging.info(
         'Init time: %s, data loader latency: %s',
         init_time,
-- 
2.43.0


From c1c231014ec63a51318b87fa529da63a818ebfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 09/33] fix: dataset preparation is not applied twice after an
 interruption

XarrayDataLoader replaced self._ds step by step, so that a preparation that
failed half-way and was retried, or ran in two threads, applied the
preprocessing function and the selection again to its own output.
---
 weatherbenchX/data_loaders/xarray_loaders.py | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/weatherbenchX/data_loaders/xarray_loaders.py b/weatherbenchX/data_loaders/xarray_loaders.py
index d2a4b8d..9fc4ace 100644
--- a/weatherbenchX/data_loaders/xarray_loaders.py
+++ b/weatherbenchX/data_loaders/xarray_loaders.py
@@ -100,6 +100,7 @@ class XarrayDataLoader(base.DataLoader):
       raise ValueError('Either path or ds must be specified.')
 
     self._ds = ds
+    self._source_ds = ds
     self._path = path
     self._variables = variables
     self._sel_kwargs = sel_kwargs
@@ -118,26 +119,31 @@ class XarrayDataLoader(base.DataLoader):
     if self._preprocessed:
       return
 
-    if self._ds is None:
+    # Always start from the original dataset and only set self._ds at the end:
+    # this may be interrupted and retried, or run in several threads at once,
+    # and no step may be applied twice.
+    ds = self._source_ds
+    if ds is None:
       logging.info('Opening dataset from path: %s', self._path)
       assert self._path is not None
       if self._path.rstrip('/').endswith('.zarr'):
-        self._ds = xr.open_zarr(self._path)
+        ds = xr.open_zarr(self._path)
       else:
-        self._ds = xr.open_dataset(self._path)
+        ds = xr.open_dataset(self._path)
 
     if self._preprocessing_fn is not None:
-      self._ds = self._preprocessing_fn(self._ds)
-    self._ds = _rename_dataset(
-        self._ds,
+      ds = self._preprocessing_fn(ds)
+    ds = _rename_dataset(
+        ds,
         self._rename_dimensions,
         self._rename_variables,
         self._automatically_convert_lat_lon_to_latitude_longitude,
     )
     if self._variables is not None:
-      self._ds = self._ds[list(self._variables)]
+      ds = ds[list(self._variables)]
     if self._sel_kwargs is not None:
-      self._ds = self._ds.sel(**self._sel_kwargs)
+      ds = ds.sel(**self._sel_kwargs)
+    self._ds = ds
     self._preprocessed = True
 
   def _load_chunk_from_source(
-- 
2.43.0


From 61eca50aa3d3606a43689f7312cc03eabf101614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 10/33] fix: atomic_write leaves no temporary file when the
 final move fails

---
 weatherbenchX/beam_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_utils.py b/weatherbenchX/beam_utils.py
index 5ee79e7..b75548d 100644
--- a/weatherbenchX/beam_utils.py
+++ b/weatherbenchX/beam_utils.py
@@ -93,9 +93,8 @@ def atomic_write(
   try:
     with filesystem.open(tmp_file_path, mode='wb') as f:
       f.write(data)
+    filesystem.mv(tmp_file_path, file_path, overwrite=True)
   except BaseException:
     with contextlib.suppress(FileNotFoundError):
       filesystem.rm(tmp_file_path)
     raise
-  else:
-    filesystem.mv(tmp_file_path, file_path, overwrite=True)
-- 
2.43.0


From 69f311998340e769410e51dd65b8b3e566cdf38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 11/33] fix: means of boolean statistics

Without weights, xr.dot of a boolean statistic is a logical OR, and so was the
sum of its weights: means came out as 0 or 1, depending on the chunking.
---
 weatherbenchX/aggregation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index d251b15..0969f1e 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -351,6 +351,10 @@ class Aggregator:
 
     assert mask.sizes == stat.sizes
 
+    if stat.dtype == bool:
+      # Sums of booleans have to be counts.
+      stat = stat.astype(float)
+
     sum_weighted_statistics = self.aggregation_fn(stat)
     sum_weights = self.aggregation_fn(mask.astype(stat.dtype))
     if sum_weighted_statistics is None or sum_weights is None:
-- 
2.43.0


From 6302743fc844ac45d9ec90461ebd6b76b3d6e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 12/33] fix: metric_values keeps all coordinate values of all
 variables

When metrics or variables have different coordinate values (for example bins
or stations that only some variables have observations for), everything not
present in the first variable was silently cut off.
---
 weatherbenchX/aggregation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index 0969f1e..71fcc34 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -133,11 +133,17 @@ class AggregationState:
     metric_values = metrics_base.compute_metrics_from_statistics(
         metrics, mean_statistics
     )
-    values = xr.Dataset()
+    data_arrays = {}
     for metric_name in metric_values:
       for var_name in metric_values[metric_name]:
         da = metric_values[metric_name][var_name]
-        values[f'{metric_name}.{var_name}'] = da
+        data_arrays[f'{metric_name}.{var_name}'] = da
+    # Assigning to a Dataset drops all coordinate values that are not present in
+    # the first variable.
+    aligned = xr.align(*data_arrays.values(), join='outer')
+    values = xr.Dataset()
+    for name, da in zip(data_arrays, aligned):
+      values[name] = da
     return values
 
   def sum_along_dims(self, dims: Collection[str]) -> 'AggregationState':
-- 
2.43.0


From db479bb70f4391ab615a6083d7c5283565be482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 13/33] fix: NaNs in predictions or targets are not taken for
 data

RankedProbabilityScore and EnsembleErrorExceedance skipped NaNs in their sums,
Confident, Covered and JaccardDistant skipped NaN members and turned NaNs into
False, RankHistogram into the lowest rank: missing data ended up silently in the
averages instead of making them NaN.
---
 weatherbenchX/metrics/categorical.py   | 29 +++++++++++++++++---------
 weatherbenchX/metrics/probabilistic.py |  6 ++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..8724d8f 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    return ((predictions - targets) ** 2).sum(self._bin_dim, skipna=False)
 
 
 # Metrics
@@ -735,15 +735,21 @@ class Confident(base.PerVariableStatisticWithClimatology):
 
     # Get the spread of the predictions.
     predictions_spread = predictions.quantile(
-        self._spread_high, dim=self._ensemble_dim
-    ) - predictions.quantile(self._spread_low, dim=self._ensemble_dim)
+        self._spread_high, dim=self._ensemble_dim, skipna=False
+    ) - predictions.quantile(
+        self._spread_low, dim=self._ensemble_dim, skipna=False
+    )
 
     # Climatologies are already quantiles.
     climatology_spread = aligned_climatology.sel(
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    confident = (
+        predictions_spread < self._confidence_threshold * climatology_spread
+    )
+    # Make sure NaNs are preserved
+    return confident.where((predictions_spread + climatology_spread).notnull())
 
 
 class Covered(base.PerVariableStatistic):
@@ -776,12 +782,14 @@ class Covered(base.PerVariableStatistic):
   ) -> xr.DataArray:
     """Computes coverage per variable."""
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
-    return (predictions_low <= targets) & (targets <= predictions_high)
+    covered = (predictions_low <= targets) & (targets <= predictions_high)
+    # Make sure NaNs are preserved
+    return covered.where(predictions_low.notnull() & targets.notnull())
 
 
 class JaccardDistant(base.PerVariableStatisticWithClimatology):
@@ -825,10 +833,10 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     """Computes jaccard distance per variable."""
     del targets  # Unused.
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
     climatology_low = aligned_climatology.sel(quantile=self._interval_low)
     climatology_high = aligned_climatology.sel(quantile=self._interval_high)
@@ -859,7 +867,8 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    # Make sure NaNs are preserved
+    return (jaccard_distance > self._threshold).where(union_length.notnull())
 
 
 class Opportunism(base.PerVariableMetric):
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 6625eb7..83fc3e5 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -735,7 +735,7 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
       targets: xr.DataArray,
   ) -> xr.DataArray:
     out = super()._compute_per_variable(predictions, targets)
-    return out.mean(dim=self._ensemble_dim)
+    return out.mean(dim=self._ensemble_dim, skipna=False)
 
 
 class UnbiasedEnsembleMeanRMSE(base.PerVariableMetric):
@@ -1219,4 +1219,6 @@ class RankHistogram(base.PerVariableStatistic):
     categories.coords['rank'] = categories
 
     # Transform to floating point for the subsequent aggregation.
-    return (ranks == categories).astype(np.float32)
+    # Make sure NaNs are preserved.
+    valid = predictions.notnull().all(self._ensemble_dim) & targets.notnull()
+    return (ranks == categories).astype(np.float32).where(valid)
-- 
2.43.0


From 47990b02406949f6f95deb51a6550382e36cf9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 14/33] fix: combining_sum with datetime coordinates

Summing states whose kept time coordinates differ failed when they carried a
valid_time coordinate, which xr.align tried to fill with zero.
---
 weatherbenchX/aggregation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index 71fcc34..eaec732 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -50,7 +50,9 @@ def combining_sum(data_arrays: Sequence[xr.DataArray]) -> xr.DataArray:
   Returns:
     The results as a DataArray.
   """
-  return sum(xr.align(*data_arrays, join='outer', fill_value=0))
+  # Zero-fill the values only: zero isn't valid for all types of coordinates.
+  fill_value = {d.name: 0 for d in data_arrays}
+  return sum(xr.align(*data_arrays, join='outer', fill_value=fill_value))
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 98e7d42f3064bc38e1e90949fada14971f9fd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 15/33] fix: FSS masks follow the dimension order of the data

The neighborhood-averaged mask was assigned by position although
apply_ufunc moves latitude and longitude last: masks of data with another
dimension order failed, or were silently transposed when the sizes agree.
---
 weatherbenchX/metrics/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 4a9c595..00c05f3 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -74,8 +74,8 @@ def neighborhood_averaging_for_single_size(
     )
     # This should be new_mask == 1 but there are some rounding errors in
     # convolve2d, so that this fails. Therefore, we use isclose.
-    new_mask = np.isclose(new_mask, True)
-    out.coords['mask'][:] = new_mask.astype(bool)
+    new_mask = new_mask.copy(data=np.isclose(new_mask, True))
+    out.coords['mask'] = new_mask.transpose(*da.mask.dims)
   return out
 
 
-- 
2.43.0


From 98470901e2518d21388511ac4d783641aa88f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 16/33] fix: Zero-fill values only when concatenating
 statistics

Zero is not a valid fill value for datetime coordinates, so aligning chunks
with different labels failed for them.
---
 weatherbenchX/beam_pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index b2a2885..73f6d1d 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -266,11 +266,13 @@ class ConcatPerStatisticPerVariable(beam.PTransform):
     ) -> tuple[_AggregationKey, xr.DataArray]:
 
       # To deal with overlapping coordinates to be combined other than init_time
-      # and lead_time, we align them here first.
+      # and lead_time, we align them here first. Only the values are filled with
+      # zeros, which aren't valid for all types of coordinates.
+      data_arrays = list(data_arrays)
       data_arrays = xr.align(
           *data_arrays,
           join='outer',
-          fill_value=0,
+          fill_value={d.name: 0 for d in data_arrays},
           exclude=['init_time', 'lead_time'],
       )
       # combine_by_coords will return a Dataset if there are any names on the
-- 
2.43.0


From 9774255e53efe37a1a191f56bb2ed70e0f33da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 17/33] fix: Sum bins named init_time or lead_time instead of
 concatenating them

Bins of sparse data can carry the name of a chunked dimension without being
one. They overlap between chunks (a global bin always does), so concatenating
them failed.
---
 weatherbenchX/beam_pipeline.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 73f6d1d..5e900e5 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -215,11 +215,16 @@ class ComputeStatisticsAggregateAndPrepareForCombine(beam.DoFn):
           ).update(
               (time.time() - start_time) * 1000
           )  # In milliseconds because beam counters use longs.
-          if 'init_time' in aggregation_state.sum_weighted_statistics.dims:
+          # Bins may also be named init_time or lead_time (for sparse data), but
+          # unlike chunks they can overlap, so they need to be summed.
+          kept_dims = set(stat.dims) & set(
+              aggregation_state.sum_weighted_statistics.dims
+          )
+          if 'init_time' in kept_dims:
             init_time_offset = time_chunk_offsets.init_time
           else:
             init_time_offset = None
-          if 'lead_time' in aggregation_state.sum_weighted_statistics.dims:
+          if 'lead_time' in kept_dims:
             lead_time_offset = time_chunk_offsets.lead_time
           else:
             lead_time_offset = None
-- 
2.43.0


From 0bca562722c72c46608e84a0d2446b30fb96def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 18/33] fix: Keep only agreed coordinates when summing
 statistics

Which of several conflicting non-dimension coordinates survived depended on
the order of summation, so the sums of weights and of statistics could end up
with conflicting coordinates and the aggregation state could not be saved.
---
 weatherbenchX/aggregation.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index eaec732..c74abfe 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -52,7 +52,20 @@ def combining_sum(data_arrays: Sequence[xr.DataArray]) -> xr.DataArray:
   """
   # Zero-fill the values only: zero isn't valid for all types of coordinates.
   fill_value = {d.name: 0 for d in data_arrays}
-  return sum(xr.align(*data_arrays, join='outer', fill_value=fill_value))
+  data_arrays = xr.align(*data_arrays, join='outer', fill_value=fill_value)
+  # Only keep non-dimension coordinates which all arrays agree on. Otherwise the
+  # order of summation would determine which of them remain, and hence whether
+  # sums of weights and of statistics have compatible coordinates.
+  conflicting = set()
+  for d in data_arrays:
+    for name in set(d.coords) - set(d.dims):
+      if not all(
+          name in other.coords
+          and d.coords[name].variable.equals(other.coords[name].variable)
+          for other in data_arrays
+      ):
+        conflicting.add(name)
+  return sum(d.drop_vars(conflicting, errors='ignore') for d in data_arrays)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 21bf9edf85c9b710c6f3691d4ba3d04a2f2030b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 19/33] fix: Masks with fewer dimensions than the statistics
 keep all coordinates for binning

---
 weatherbenchX/aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index c74abfe..8844383 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -363,7 +363,7 @@ class Aggregator:
 
       # We need to broadcast the mask to the same shape as the stat, so that
       # reductions over it behave the same as reductions over the full stat.
-      mask = mask.broadcast_like(stat)
+      mask = mask.broadcast_like(stat).assign_coords(stat.coords)
     elif self.skipna:
       mask = ~stat.isnull()
       stat = stat.where(mask, 0)
-- 
2.43.0


From 937fc1837e69d3715008010437b540ac36ba6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 20/33] fix: Template of unaggregated output keeps coordinates
 that aren't chunked in time

Scalar coordinates of statistics (e.g. quantile) and time-dependent
coordinates (e.g. dayofyear of ACC) made define_unaggregated_pipeline fail.
---
 weatherbenchX/beam_pipeline.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 5e900e5..748090a 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -584,8 +584,15 @@ def _get_template_dataset(
       first_chunk[f'{stat_name}.{var_name}'] = da
 
   # Convert the first chunk into a template, with the proper init_time and
-  # lead_time dimensions
-  template = xbeam.make_template(first_chunk)
+  # lead_time dimensions. Other coordinates are the same in all chunks.
+  time_dims = {'init_time', 'lead_time'}
+  lazy_vars = [
+      k
+      for k, v in first_chunk.variables.items()
+      if k in first_chunk.data_vars
+      or (k not in first_chunk.indexes and time_dims & set(v.dims))
+  ]
+  template = xbeam.make_template(first_chunk, set(lazy_vars))
 
   if 'mask' in template.coords:
     raise ValueError(
@@ -594,7 +601,7 @@ def _get_template_dataset(
     )
 
   if 'lead_time' in template.dims:
-    vars_to_expand = [k for k, v in template.items() if 'lead_time' in v.dims]
+    vars_to_expand = [k for k in lazy_vars if 'lead_time' in template[k].dims]
     template = template.isel(lead_time=0, drop=True)
     lead_times = times.lead_times
     if isinstance(lead_times, slice):
@@ -604,7 +611,7 @@ def _get_template_dataset(
       template[k] = template[k].expand_dims(lead_time=lead_times)
 
   if 'init_time' in template.dims:
-    vars_to_expand = [k for k, v in template.items() if 'init_time' in v.dims]
+    vars_to_expand = [k for k in lazy_vars if 'init_time' in template[k].dims]
     template = template.isel(init_time=0, drop=True)
     for k in vars_to_expand:
       template[k] = template[k].expand_dims(init_time=times.init_times)
-- 
2.43.0


From d512e8c0dadb2581658f1210024a746a612ba889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 21/33] fix: Unaggregated pipeline accepts chunk sizes larger
 than the dimension

---
 weatherbenchX/beam_pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 748090a..b3c4676 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -661,9 +661,9 @@ def define_unaggregated_pipeline(
   stat_chunks = {}
   for dim, size in dim_sizes.items():
     if dim == 'init_time':
-      stat_chunks[dim] = times.init_time_chunk_size or -1
+      stat_chunks[dim] = min(times.init_time_chunk_size or size, size)
     elif dim == 'lead_time':
-      stat_chunks[dim] = times.lead_time_chunk_size or -1
+      stat_chunks[dim] = min(times.lead_time_chunk_size or size, size)
     else:
       stat_chunks[dim] = size  # unchunked
 
@@ -673,6 +673,8 @@ def define_unaggregated_pipeline(
   # Use any entries in stat_chunks as defaults for zarr_chunks.
   # Consider raising an error for missing dimensions instead?
   zarr_chunks = stat_chunks | zarr_chunks
+  # xbeam.Rechunk doesn't accept chunks larger than the dimension.
+  zarr_chunks = {k: min(v, dim_sizes.get(k, v)) for k, v in zarr_chunks.items()}
 
   _ = (
       root
-- 
2.43.0


From 44e4451bcc16f8795741f4639c817da1930cceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 22/33] fix: add_nan_mask_to_data does not modify the arrays it
 is given

---
 weatherbenchX/data_loaders/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/base.py b/weatherbenchX/data_loaders/base.py
index 16370d4..4c4a09e 100644
--- a/weatherbenchX/data_loaders/base.py
+++ b/weatherbenchX/data_loaders/base.py
@@ -52,7 +52,8 @@ def add_nan_mask_to_data(
   data = dict(data)
   for var in data:
     if variable_subset is None or var in variable_subset:
-      data[var].coords['mask'] = ~np.isnan(data[var])
+      # Don't modify the caller's arrays.
+      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
   return data
 
 
-- 
2.43.0


From 44bccfaa8ad9053cde27c03eebec1bf5e68898e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 23/33] fix: altitude adjustment does not modify the array it
 is given

---
 weatherbenchX/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..3141873 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -348,7 +348,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
     if da.name in ['2m_temperature', '10m_wind_speed']:
-      da.coords['grid_elevation'] = self._grid_elevation.compute()
+      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
     if da.name in ['2m_temperature', '10m_wind_speed']:
-- 
2.43.0


From bc7c2834c17a49059ac2a9625f64dfa6acee213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 24/33] fix: order of retained dimensions does not depend on
 string hashes

---
 weatherbenchX/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 3141873..a46d166 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -276,7 +276,7 @@ class InterpolateToReferenceCoords(Interpolation):
     if reference.size == 0:
       # Need to make sure to retain any dimensions that are not being
       # interpolated.
-      da_dims_to_retain = set(da.dims) - set(dims)
+      da_dims_to_retain = [d for d in da.dims if d not in dims]
       return reference.copy().expand_dims({d: da[d] for d in da_dims_to_retain})
 
     dim_args = {dim: reference[dim] for dim in dims}
-- 
2.43.0


From 3efb914c1d6f5bd7aa981c3ec621b1910c8f49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 25/33] fix: start of lead time intervals in
 SparseObservationsFromParquet

---
 weatherbenchX/data_loaders/sparse_parquet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..f5cd038 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -206,13 +206,14 @@ class SparseObservationsFromParquet(base.DataLoader):
   ) -> xr.Dataset:
     """Load data for some valid time.
 
-    If lead_time_slice is given, load data for valid_time +/- lead_time_slice.
+    If lead_time_slice is given, load data from valid_time +
+    lead_time_slice.start to valid_time + lead_time_slice.stop.
     Otherwise, tolerance and file tolerance are applied around valid_time.
 
     Args:
       valid_time: Base time to load data for.
-      lead_time_slice: (Optional) If given, load data for valid_time +/-
-        lead_time_slice.
+      lead_time_slice: (Optional) If given, load data for this interval of lead
+        times relative to valid_time.
 
     Returns:
       xarray.Dataset with data for the given valid_time.
@@ -223,7 +224,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 8f588122309cf46817d061eeb3d0413b85bcd9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 26/33] fix: lead time intervals with only untyped empty
 Parquet files

---
 weatherbenchX/data_loaders/sparse_parquet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index f5cd038..a1102d3 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -271,6 +271,8 @@ class SparseObservationsFromParquet(base.DataLoader):
       return df
 
     df = pd.concat([_read_single_file(fn) for fn in files], ignore_index=True)
+    # Empty files may come without column types.
+    df[self._time_dim] = pd.to_datetime(df[self._time_dim])
 
     if self._preprocessing_fn is not None:
       df = self._preprocessing_fn(df)
-- 
2.43.0


From 7c8c6da4c28b111b68686caf788d65eed6703dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 27/33] fix: map_structure does not merge differing coordinates
 with NaNs

---
 weatherbenchX/xarray_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/xarray_tree.py b/weatherbenchX/xarray_tree.py
index 2619958..abdd817 100644
--- a/weatherbenchX/xarray_tree.py
+++ b/weatherbenchX/xarray_tree.py
@@ -54,7 +54,7 @@ def map_structure(func: Callable[..., Any], *structures: Any) -> Any:
     ):
       data_arrays = [v.rename(k) for k, v in data.items() if v is not None]
       try:
-        return xarray.merge(data_arrays, join='exact')
+        return xarray.merge(data_arrays, join='exact', compat='equals')
       except ValueError:  # Exact join not possible.
         pass
     return data
-- 
2.43.0


From 3eea470266ba8636509af4b771d37aebcf338a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 28/33] fix: bootstrap p-value of a system compared with itself

When several replicates equal the null value, np.interp returns the empirical
CDF at the last of them, so 1 - cdf (and with it the p-value) was 0 for a model
compared with itself: reported as significant though the interval is [0, 0].
---
 weatherbenchX/statistical_inference/bootstrap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index 61868c9..fee80d5 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -115,8 +115,12 @@ class Bootstrap(base.StatisticalInferenceMethod):
         return np.nan
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
-      empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      # These differ only if several replicates are equal to null_value, e.g.
+      # all of them when a model is compared with itself. The null is then
+      # within the interval as long as any of them is.
+      cdf_at_null = np.interp(null_value, data, q)
+      survival_at_null = np.interp(-null_value, -data[::-1], q)
+      return min(1., 2 * min(cdf_at_null, survival_at_null))
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From e8afa1d32d6c2e71070d604160b0031f56d2b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:51 +0000
Subject: [PATCH 29/33] fix: combine_results without any variable on levels

With results for surface variables only, chunking along the absent level
dimension failed and no combined file was written.
---
 public_benchmark/combine_results.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/public_benchmark/combine_results.py b/public_benchmark/combine_results.py
index 58a2ca3..156f158 100644
--- a/public_benchmark/combine_results.py
+++ b/public_benchmark/combine_results.py
@@ -263,7 +263,7 @@ def main(_):
   ).astype("int")
   print(results)
 
-  results = results.chunk({
+  chunks = {
       "model": -1,
       "resolution": 1,
       "year": 1,
@@ -271,7 +271,9 @@ def main(_):
       "region": 1,
       "level": -1,
       "lead_time": -1,
-  })
+  }
+  # There is no level if all results are for surface variables.
+  results = results.chunk({d: c for d, c in chunks.items() if d in results.dims})
   if MODE.value == "deterministic":
     results_fn = path.join(OUTPUT_DIR.value, "deterministic.zarr")
   else:
-- 
2.43.0


From 11453584ed872f40f03877c41c14bb88a4d8b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:08 +0000
Subject: [PATCH 30/33] fix: altitude adjustment of windows without any
 observation

---
 weatherbenchX/interpolations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index a46d166..55e62c3 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -351,6 +351,10 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
+    # Without any reference point there is nothing to adjust (and no
+    # interpolated grid elevation).
+    if reference.size == 0:
+      return da_like_reference
     if da.name in ['2m_temperature', '10m_wind_speed']:
       # Positive if station is higher than grid.
       sparse_higher_than_grid_m = (
-- 
2.43.0


From fdfe2533945fdacdcd63cb441c9d3b302cf10169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:57 +0000
Subject: [PATCH 31/33] fix: run_benchmark_evaluation no longer modifies the
 shared configuration

Evaluating the probabilistic climatology added start_year and end_year to the
target configuration itself, so that a later evaluation of, for example,
persistence in the same process failed.
---
 public_benchmark/run_benchmark_evaluation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/public_benchmark/run_benchmark_evaluation.py b/public_benchmark/run_benchmark_evaluation.py
index 71cd82e..2b9f0c8 100644
--- a/public_benchmark/run_benchmark_evaluation.py
+++ b/public_benchmark/run_benchmark_evaluation.py
@@ -172,10 +172,9 @@ def main(argv: Sequence[str]) -> None:
       if 'levels' in prediction_config
       else _DEFAULT_LEVELS
   )
-  prediction_loader_kwargs = (
-      prediction_config['data_loader_kwargs']
-      if 'data_loader_kwargs' in prediction_config
-      else {}
+  # Copied because arguments may be added below.
+  prediction_loader_kwargs = dict(
+      prediction_config.get('data_loader_kwargs', {})
   )
   if PREDICTION.value == 'persistence':
     prediction_loader = xarray_loaders.PersistenceFromXarray
-- 
2.43.0


From f82b6ab64fce21041a8ce963354f1daef207be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 32/33] fix: Concatenate chunks of times given in arbitrary
 order

A kept init_time or lead_time dimension whose requested values interleave
between chunks (for example lead times 1, 6, 3 in chunks of two) made
combine_by_coords fail, depending on the chunk size alone.
---
 weatherbenchX/beam_pipeline.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index b3c4676..ef8a510 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 """Defines the beam pipeline for evaluation."""
 
-from collections.abc import Hashable
+from collections.abc import Hashable, Sequence
 import dataclasses
 import time
 import typing
@@ -249,6 +249,19 @@ class ComputeStatisticsAggregateAndPrepareForCombine(beam.DoFn):
         raise RuntimeError(f'Aggregation of {stat_name} failed.') from e
 
 
+def _chunks_interleave(data_arrays: Sequence[xr.DataArray], dim: str) -> bool:
+  """Whether chunks can't be concatenated in a monotonic order along dim."""
+  if any(dim not in d.dims for d in data_arrays):
+    return False
+  chunks = sorted({tuple(d[dim].values) for d in data_arrays}, key=min)
+  if len(chunks) < 2:
+    return False
+  increasing = all(list(c) == sorted(c) for c in chunks)
+  decreasing = all(list(c) == sorted(c, reverse=True) for c in chunks)
+  overlapping = any(max(a) >= min(b) for a, b in zip(chunks[:-1], chunks[1:]))
+  return overlapping or not (increasing or decreasing)
+
+
 class ConcatPerStatisticPerVariable(beam.PTransform):
   """Concatenates DataArrays on a per-statistic, per-variable basis.
 
@@ -303,6 +316,13 @@ class ConcatPerStatisticPerVariable(beam.PTransform):
       # since combine_by_coords will return a Dataset in this case.
       if not data_arrays:
         return key, xr.DataArray()
+      # Chunks of times in arbitrary order may interleave, which combine_by_coords
+      # cannot deal with either, other than in single time steps.
+      for dim in ['init_time', 'lead_time']:
+        if _chunks_interleave(data_arrays, dim):
+          data_arrays = [
+              d.isel({dim: [i]}) for d in data_arrays for i in range(d.sizes[dim])
+          ]
       return key, xr.combine_by_coords(data_arrays)
 
     return (
-- 
2.43.0


From 49fe60673616ce9b8b3165dd11ae83d508df5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:14 +0000
Subject: [PATCH 33/33] fix: SEEPS for predictions and climatology with
 latitudes in different order

.where() aligns with join='exact', so that for example an evaluation of
predictions ordered from north to south against the benchmark's sorted
climatology failed.
---
 weatherbenchX/metrics/categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 8724d8f..9a76ca4 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -263,6 +263,8 @@ class SEEPS(base.Statistic):
         .mean(('hour', 'dayofyear'))
         .compute()
     )
+    # .where() below requires coordinates in the same order as the predictions.
+    p1 = p1.sel({d: predictions[d] for d in p1.dims if d in predictions.indexes})
 
     # Compute scoring matrix
     # The contingency table and p1 should have matching spatial dimensions.
-- 
2.43.0

