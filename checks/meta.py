"""Sizes, evidence texts and reach probes of the checks."""

BEAM_REAL = [
    'weatherbenchX pipelines, DoFns, CombineFn, aggregation, metrics, loaders',
    'Apache Beam DoFnRunner, coders and pickling', 'netCDF encoding (scipy)']
BEAM_STUB = [
    'the Beam runner (vsim.beamsim: fusion, bundling, lifting, merge trees, '
    'placement, crashes, retries, duplicates are the simulator\'s)',
    'file storage (vsim.fsim behind fsspec)', 'clock and temporary names']
ASSUME = [
    'worker memory is not shared between simulated hosts (real coders and '
    'pickling separate them)',
    'code between two yield points runs atomically with respect to other tasks',
    'sampled search: absence of a violation is not a proof']

CHECKS = {}


def add(pid, quick, thorough, rule, oracle, note, real=None, stub=None,
        assumptions=(), required_probes=(), level=None):
  CHECKS[pid] = dict(
      oracle=oracle, note=note,
      runs=dict(quick=quick, thorough=thorough), rule=rule,
      real=real or BEAM_REAL, stub=stub or BEAM_STUB,
      assumptions=list(assumptions) + ASSUME, required_probes=required_probes,
      level=level or 'exploration')


SEARCH = 'seeded search, not exhaustive; '

add('C01', 400, 40000,
    'one evaluation = a generated evaluation (data, metrics, reduction, bins, '
    'weights, masks, chunk sizes) run chunked under one seeded schedule and '
    'compared with the whole-data result and the scalar reference; non-trivial '
    'if it has more than one chunk; distinct by event log digest',
    oracle='the whole-data evaluation and a scalar reference of the weighted mean',
    note=SEARCH + 'real Beam DoFns, coders and combiners; the runner and the '
    'file store are simulated',
    required_probes=('several_chunks', 'ragged_last_chunk', 'binned', 'weighted',
                     'masked', 'direct_summation'))

add('C02', 200, 30000,
    'one evaluation = a generated job run under a seeded schedule with worker '
    'crashes, bundle failures, speculative duplicates, zombies and storage '
    'errors; non-trivial if at least one fault was injected; distinct by event '
    'log digest',
    oracle='the undisturbed whole-data evaluation, per-worker set-up order and '
    'value fingerprints of every input before and after',
    note=SEARCH + 'faults are bounded so that every one can be retried',
    required_probes=('job_done', 'retried', 'duplicate_discarded', 'setup_fn',
                     'reprocessed', 'worker_crash', 'bundle_failure',
                     'speculative_duplicate', 'zombie_left'))

add('C03', 2500, 400000,
    'one evaluation = one simulated history of concurrent writers and readers '
    'of one path (raw writes or the pipeline\'s writing steps, or whole jobs '
    'with duplicated final steps) under storage errors, crashes, full disks and '
    'clock jumps, with the visible content checked after every single step; '
    'non-trivial if it has several writers or a fault; distinct by event log '
    'digest',
    oracle='the set of complete contents, checked at every step, and the '
    'install history of each write',
    note=SEARCH + 'the file system is simulated with atomic rename, as the '
    'property assumes',
    real=['weatherbenchX beam_utils.atomic_write, WriteMetrics, '
          'WriteAggregationState, complete aggregated pipelines', 'fsspec API'],
    stub=['storage (vsim.fsim)', 'process identity, uuids, clocks (vsim.procsim)',
          'the Beam runner in whole-job runs'],
    required_probes=('several_installs', 'lost_rename_reply', 'crash_debris',
                     'job_done', 'writer_crash', 'fs_enospc', 'fs_short',
                     'fs_mv', 'fs_write', 'fs_open', 'fs_close', 'clock_jump'))

add('C04', 640, 60000,
    'one evaluation = a generated evaluation whose chunks differ in labels, bins, '
    'levels or variables, or are empty, run under one seeded schedule (a third '
    'with crashes and duplicates) and compared entry by entry with the mean over '
    'exactly the observations of each entry; non-trivial if it has more than one '
    'chunk; distinct by event log digest',
    oracle='a scalar reference over the list of observations, and the evaluation '
    'of all data in one piece',
    note=SEARCH + 'observations come from a simulated source behind the real '
    'loader interface',
    required_probes=('sparse', 'kept', 'some_chunks_empty', 'all_empty',
                     'variable_missing_in_chunks', 'entries_checked',
                     'labels_differ_along_kept_dim', 'masked', 'weighted',
                     'direct_summation'))

add('C05', 2000, 200000,
    'one evaluation = one history of merges, splits, reductions, transfers and '
    'save/restore steps over generated partial states on workers that may crash '
    'and storage that may fail, compared after every step with exact totals; '
    'non-trivial if it starts from more than one state; distinct by event log '
    'digest',
    oracle='an executable model holding every cell of every state exactly',
    note=SEARCH + 'real AggregationState, combiner, data tree, Dataset, netCDF, '
    'zarr and pickle forms; files go to simulated storage',
    real=['weatherbenchX aggregation, beam_utils.CombiningSum, '
          'WriteAggregationState', 'xarray, netCDF (scipy), zarr, pickle'],
    stub=['file storage (vsim.fsim)', 'the workers that hold the states'],
    required_probes=('dot', 'early_reduction', 'zero_inserted', 'merge_sum',
                     'merge_plus', 'merge_iter', 'merge_combiner', 'form_pickle',
                     'form_copy', 'form_cloudpickle', 'form_tree',
                     'form_tree_zarr', 'form_dataset', 'form_separator',
                     'form_netcdf', 'form_file', 'save_interrupted', 'split',
                     'total_checked', 'metric_values', 'worker_crash'))

add('C06', 340, 50000,
    'one evaluation = a generated evaluation with missing values, lost storage '
    'pieces, absent times or variables, or masks, run in chunks under a seeded '
    'schedule; every result entry is classified by whether finite replacements '
    'of the missing values change it; distinct by event log digest',
    oracle='dependence of each entry on the missing values, found by finite '
    'replacement; a scalar reference for masked and NaN-skipping means; '
    'indifference to values under a mask; equality of masking and leaving out',
    note=SEARCH + 'a NaN without masking may also reach other bins of the same '
    'kept entry, as documented in Aggregator',
    required_probes=('dependent_entries', 'mask_checked',
                     'explicit_mask', 'skipna_checked', 'failed_loudly',
                     'masked_time_equals_removed', 'lost_storage_piece',
                     'nan_input', 'binned'))

add('C14', 380, 100000,
    'one evaluation = a generated job in which one site (loader, lazy data, '
    'set-up, statistic, transform, bins, weights, metric value, serialisation, '
    'pipeline step, storage operation) raises one of 28 exception kinds for one '
    'chunk or variable, for ever or for a few attempts, under a seeded schedule; '
    'distinct by event log digest',
    oracle='job outcome against the injected failures, the output directory '
    'before and after, and the undisturbed result',
    note=SEARCH + 'failing parts are subclasses of the framework\'s own base '
    'classes or the simulated storage and runner',
    required_probes=('job_done', 'job_failed', 'recovered', 'direct_raised',
                     'load_p', 'load_t', 'lazy', 'setup', 'stat', 'late_stat',
                     'transform', 'bin', 'weight', 'values', 'poison', 'stage',
                     'fs_open', 'fs_write', 'fs_close', 'fs_mv'))

add('C13', 150, 50000,
    'one evaluation = one evaluation split into jobs by initialisation or lead '
    'time, each run (and rerun after storage or worker failures) in a seeded '
    'order and schedule, followed by restoring, adding up and reducing the saved '
    'states; distinct by event log digest',
    oracle='the metrics file of each job, and the evaluation of all data in one '
    'piece together with the scalar reference',
    note=SEARCH + 'state files are the real netCDF bytes on simulated storage',
    required_probes=('several_jobs', 'jobs_with_kept_time', 'job_failed',
                     'reduced_after_loading', 'saved_between_merges',
                     'rerun_of_finished_job', 'worker_crash'))

add('C07', 150, 50000,
    'one evaluation = one unaggregated job with generated input and output '
    'chunking under a seeded schedule with crashes, duplicates, zombies and '
    'failing store operations, possibly over the remains of an older or failed '
    'job; distinct by event log digest',
    oracle='statistics of all data in one piece, plain formulas for the simple '
    'statistics, and requested times',
    note=SEARCH + 'the Zarr store is an in-memory object store with per-key '
    'atomic writes',
    real=['weatherbenchX unaggregated pipeline, time chunks, loaders, metrics',
          'xarray-beam Rechunk and ChunksToZarr, xarray, zarr, dask '
          '(synchronous)'],
    stub=['object store (vsim.zsim)', 'the Beam runner (vsim.beamsim)'],
    required_probes=('job_done', 'values_checked', 'overwritten_store',
                     'failed_then_rerun', 'rechunked',
                     'ragged_last_chunk', 'retried', 'zarr_put',
                     'worker_crash', 'speculative_duplicate'))

add('C08', 500, 300000,
    'one evaluation = a generated loader configuration and source with a history '
    'of requests: good, absent, interrupted at a chosen line, with failing '
    'storage, on copies and twins, and from several threads preempted at seeded '
    'lines; every answer is compared with a value-by-value look-up; distinct by '
    'event log digest',
    oracle='a value-by-value look-up in the stored data and snapshots of the source',
    note=SEARCH + 'real xarray, Zarr and netCDF reading; object store simulated',
    real=['weatherbenchX data loaders and interpolations', 'xarray, zarr, dask '
          '(synchronous), scipy netCDF', 'pickle, cloudpickle, copy'],
    stub=['object storage (vsim.zsim behind fsspec)',
          'thread switching (sys.settrace, one thread at a time)'],
    required_probes=('copied', 'threads', 'load_failed', 'other_configuration',
                     'interrupted_load', 'request_for_absent_times',
                     'values_checked'))

add('C09', 800, 300000,
    'one evaluation = a generated archive (streams of nominal times, latencies '
    'and stored lead times) behind the real wrappers with a history of requests, '
    'many of them at or next to an issue time: plain, interrupted, with failing '
    'reads, on copies, from threads preempted at seeded lines, and as predictions '
    'of a pipeline in chunks; distinct by event log digest',
    oracle='the choice of forecast recomputed request by request from the '
    'definition, and the stored value of that step',
    note=SEARCH + 'time is simulated: request times stand for the moment of use',
    real=['weatherbenchX latency wrappers, xarray loaders, interpolation',
          'aggregated pipeline', 'xarray, zarr, dask (synchronous)'],
    stub=['forecast archive and its issue times', 'object storage (vsim.zsim)',
          'the Beam runner (vsim.beamsim)'],
    required_probes=('nothing_issued', 'refused', 'available_exactly_now',
                     'tie_between_streams', 'threads', 'copied',
                     'interrupted_load', 'archive_read_failed',
                     'evaluated_in_chunks', 'values_checked'))

add('C10', 1200, 300000,
    'one evaluation = a generated set of observations in hour, day or month files '
    'and a loader configuration with a history of requests, many with windows '
    'ending at observations or partition boundaries: plain, with missing, '
    'damaged or failing files, interrupted, on copies, from threads, and as '
    'targets of a pipeline in chunks; distinct by event log digest',
    oracle='row by row selection from the list of observations',
    note=SEARCH + 'damage is of kinds the file format can notice; files are '
    'immutable while a request runs',
    real=['weatherbenchX sparse_parquet loader, METAR preprocessing',
          'pandas, pyarrow', 'aggregated pipeline'],
    stub=['file storage (vsim.obsim behind fsspec; a scratch directory in some '
          'runs)', 'the Beam runner (vsim.beamsim)'],
    required_probes=('failed_loudly', 'unaffected_by_fault', 'row_at_window_end',
                     'row_at_window_start', 'window_over_several_files',
                     'row_in_neighbouring_file', 'evaluated_in_chunks', 'threads',
                     'copied', 'interrupted_load', 'missing', 'zero', 'truncated',
                     'no_footer', 'text', 'garbage_footer', 'stat', 'open', 'read',
                     'short', 'rows_checked'))

add('C11', 600, 60000,
    'one evaluation = one generated set of unit statistics (units, clusters, '
    'weights, missing units, extra dims, comparison) resampled by one bootstrap '
    'under a seeded draw sequence with rare draws, interruptions and threads; '
    'every replicate is compared with all compositions of the draws; distinct '
    'by digest of events and replicates',
    oracle='enumeration of all resamples of the units with the means computed '
    'independently; own simulation of the draw distribution',
    note=SEARCH + 'unit numbers up to 6 (8) so that all resamples can be '
    'enumerated',
    real=['weatherbenchX.statistical_inference (bootstraps, autodiff, baseline '
          'comparison), metrics, numpy generator', 'jax (stationary bootstrap)'],
    stub=['np.random seam: seeded, sometimes returns rare but possible draws'],
    required_probes=('replicates_judged', 'distribution_checked', 'comparison',
                     'self_comparison', 'misaligned_refused', 'missing_units',
                     'nan_replicates', 'threads', 'rare_draws', 'interrupted',
                     'draws_identified'))

add('C15', 250, 30000,
    'one evaluation = one run of the combination script over a generated set of '
    'result files (models, years, resolutions, regions, levels, variables) in a '
    'simulated store with missing, damaged, failing and late files, failing '
    'output writes and interruptions, then reruns after recovery; non-trivial if '
    'several files or a fault; distinct by event log digest',
    oracle='the table of all generated values by label',
    note=SEARCH + 'byte damage that the file format cannot notice is not injected',
    real=['public_benchmark/combine_results.py', 'xarray, scipy netCDF, zarr'],
    stub=['result file store (vsim.obsim)', 'output object store (vsim.zsim)'],
    required_probes=('combination_done', 'combination_failed', 'entries_checked',
                     'leftovers_refused', 'stale_table', 'strangers', 'other_mode_before',
                     'appeared', 'interrupted', 'open', 'read', 'truncated',
                     'zero', 'text', 'short', 'zarr_put'))

add('C12', 170, 40000,
    'one evaluation = one generated job (evaluation, simulated Beam job, seeded '
    'bootstrap, gridded or sparse load, combination script) executed in three '
    'fresh processes with different hash seeds, prior work, interruptions, '
    'generator states, clocks and time zones; distinct by digest of the '
    'observations',
    oracle='the same job in the other processes, and again in the same process',
    note=SEARCH + 'three hash seeds, varied by the names of variables and metrics',
    real=['weatherbenchX evaluation, loaders, pipelines, inference and the '
          'combination script, in real separate processes'],
    stub=['clock, time zone and generator state of each process', 'stores',
          'the Beam runner for Beam jobs'],
    required_probes=('processes', 'twice', 'history_reuse', 'history_cut',
                     'history_eval', 'history_boot', 'clock_shift', 'time_zone'))

add('C16', 240, 40000,
    'one evaluation = 2-4 generated evaluations over shared loaders, metrics, '
    'aggregators, binnings, weightings, interpolations, loaded chunks or states, '
    'run alone, then together in threads pre-empted (and interrupted) at seeded '
    'source lines, then again; every step also runs with its inputs compared '
    'before and after; distinct by event log and result digest',
    oracle='each evaluation run alone with objects of its own; byte snapshots of '
    'all inputs',
    note=SEARCH + 'pre-emption between source lines of weatherbenchX; calls into '
    'numpy and xarray are atomic',
    real=['weatherbenchX evaluation steps, loaders, interpolations', 'xarray, '
          'numpy'],
    stub=['the thread scheduler (baton passing at traced lines)'],
    required_probes=('steps', 'evaluations', 'arguments_checked',
                     'interrupted_evaluation', 'line_switches', 'met'))

add('C21', 90, 30000,
    'one evaluation = one or two runs of an evaluation script (benchmark or '
    'example) with generated flags over the real configuration module and '
    'generated archives in a simulated bucket, under a seeded schedule with '
    'worker crashes, duplicates, failing reads and writes and lost archive '
    'pieces; distinct by event log digest',
    oracle='numpy definitions of every published entry from the generated '
    'archives (times, levels, regions, metrics)',
    note=SEARCH + 'small grids under the real archive names; land-sea mask 0 or 1',
    real=['public_benchmark/run_benchmark_evaluation.py, public_configs.py, '
          'evaluation_scripts/run_example_evaluation.py and all of weatherbenchX '
          'they use', 'xarray, zarr, dask (synchronous), absl flags'],
    stub=['bucket (vsim.zsim)', 'result storage (vsim.fsim)',
          'the Beam runner (vsim.beamsim)'],
    required_probes=('evaluation_done', 'evaluation_failed', 'entries_checked',
                     'benchmark', 'example', 'temporal', 'precipitation',
                     'second_evaluation', 'zarr_get',
                     'lost_piece', 'worker_crash'))
