"""Regenerates /verif/properties.jsonl (kept in one place so ids stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files,
      state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
      mechanism=[dict(name=a, where=b) for a, b in mech],
      observe_at=list(observe), hook_needed=hook)))
W = 'weatherbenchX/'

prop('C01', 'Results do not depend on chunking or on how the work is scheduled',
 'For any evaluation, cutting the initialisation and lead times (listed in any order) into chunks of any size and bundling, ordering, serialising and combining those chunks in any way gives the same metric values, coordinates and dimension entries (up to rounding) as evaluating all the data in one piece and as the plain definition of a weighted mean of the statistics. Every requested (initialisation time, lead time) pair is loaded and contributes exactly once, ragged last chunks included. This holds for every provided metric, wrapper, binning, weighting, masking and skip-NaN option whose per-chunk statistics are defined.',
 ['schedules', 'inputs', 'configurations'],
 'every chunk size pair, every bundling, element order, combiner tree and serialisation boundary a distributed runner may choose, every aggregation configuration',
 'The tests run a few fixed chunkings through one in-process runner that always bundles, orders and merges the same way; a distributed runner picks others on every run.',
 [W+'time_chunks.py', W+'beam_pipeline.py', W+'aggregation.py', W+'beam_utils.py', W+'metrics/base.py'],
 [('chunk offsets', W+'time_chunks.py: TimeChunks.iter_with_chunk_offsets'),
  ('keys carrying the chunk offset for preserved time dims', W+'beam_pipeline.py: _AggregationKey'),
  ('associative sum of (sum of weighted statistics, sum of weights)', W+'aggregation.py: combining_sum; '+W+'beam_utils.py: CombiningSum')],
 [('accumulators', 'partial sums per statistic, variable and offset', W+'beam_utils.py: CombiningSum')],
 ['metrics file written by the pipeline', 'aggregation-state file', 'requests received by the data loaders'])

prop('C02', 'Worker crashes, retries and duplicated work never change a job\'s result',
 'When workers crash, bundles are retried, backup copies of the same work run concurrently or a worker believed dead keeps running, a job that reports success leaves exactly the result of an undisturbed run, with each data chunk counted exactly once. Processing the same input again gives the same output: no step modifies its inputs or relies on state that one attempt leaves behind, and any per-worker initialisation has run on a worker before that worker first loads data.',
 ['schedules', 'crash_points', 'fault_sequences'],
 'every placement of worker crashes, element failures, bundle retries, speculative duplicates and late zombie workers over every schedule',
 'The tests use an in-process runner in which no worker ever fails, nothing is retried and nothing runs twice.',
 [W+'beam_pipeline.py', W+'beam_utils.py', W+'aggregation.py', W+'data_loaders/base.py', W+'metrics/base.py'],
 [('stateless, serialisable processing steps', W+'beam_pipeline.py: LoadPredictionsAndTargets, ComputeStatisticsAggregateAndPrepareForCombine, ComputeMetrics'),
  ('set-up once per worker', W+'beam_pipeline.py: LoadPredictionsAndTargets.setup'),
  ('commutative merge without aliasing', W+'beam_utils.py: CombiningSum')],
 [('is_initialized', 'whether the per-worker set-up has run', W+'beam_pipeline.py: LoadPredictionsAndTargets')],
 ['output files after the job reports success', 'inputs held by the caller before and after'])

prop('C03', 'Result files appear atomically: never torn, mixed or littered',
 'At every instant, whatever crashes, I/O errors, full disks or concurrent writers occur, a result file either does not exist, still holds its previous complete content, or holds the complete content of exactly one writer. A write that returns normally has put its complete content in place; a write that fails by an exception says so, leaves the previous content untouched (unless the final rename itself had taken effect) and leaves no partial or temporary file behind. Concurrent writers of the same path never make each other fail or publish anything but one complete content.',
 ['schedules', 'crash_points', 'fault_sequences'],
 'every interleaving of several writers and readers of the same path, every crash point and every failing or short file-system operation',
 'The tests write once to a local directory; no test crashes mid-write, fails an operation or runs two writers.',
 [W+'beam_utils.py', W+'beam_pipeline.py'],
 [('write to a unique temporary name in the same directory, then rename', W+'beam_utils.py: atomic_write')],
 [('temporary file', 'content being written', W+'beam_utils.py: atomic_write')],
 ['directory listing and file content after every file-system operation'])

prop('C04', 'Chunks with different coordinates or bins merge without loss',
 'When chunks of an evaluation carry different coordinate values along a kept dimension (sparse stations, bins discovered from the data, levels or variables present only in part of the chunks), the combined result contains the union of those coordinates, and each entry equals the weighted mean over exactly the observations belonging to it, each counted once. A chunk that contributes nothing to an entry leaves it unchanged: absence is neutral, never NaN, never a dropped entry, never a shifted one. The same holds when some or all chunks are empty.',
 ['schedules', 'inputs', 'histories'],
 'every assignment of coordinate values and observations to chunks, every order and grouping in which the chunks arrive and merge',
 'The tests merge a few hand-made, mostly aligned arrays in one order.',
 [W+'aggregation.py', W+'beam_pipeline.py', W+'beam_utils.py', W+'binning.py'],
 [('zero-filled outer join', W+'aggregation.py: combining_sum'),
  ('alignment before concatenation', W+'beam_pipeline.py: ConcatPerStatisticPerVariable'),
  ('data-driven bins', W+'binning.py: ByCoordBins, ByExactCoord, ByTimeUnit, ByTimeUnitFromSeconds, BySets')],
 [], ['metrics file', 'aggregation-state file'])

prop('C05', 'Partial aggregation states can be merged, split and restored freely',
 'Adding up partial aggregation states gives the same totals for every order, grouping, nesting and number of merge rounds; the empty state is neutral at any position; merging never modifies its operands. Reducing some dimensions early, late, or through a dot product with ones gives the same state, and a state saved to and restored from any of its provided serialised forms, or pickled, between any two steps continues to exactly the same totals and metric values.',
 ['schedules', 'histories', 'crash_points'],
 'every sequence of merges, partial reductions, saves, crashes and restores over any number of partial states',
 'The tests add two or three states in one order and round-trip one state once.',
 [W+'aggregation.py', W+'xarray_tree.py'],
 [('zero state and sum', W+'aggregation.py: AggregationState.zero, sum, __add__'),
  ('staged reduction', W+'aggregation.py: AggregationState.sum_along_dims, dot'),
  ('serialised forms', W+'aggregation.py: to_data_tree, from_data_tree, to_dataset, from_dataset')],
 [('sum_weighted_statistics / sum_weights', 'the two running totals', W+'aggregation.py: AggregationState')],
 ['totals and metric values of the final state'])

prop('C06', 'Missing or damaged input data is loud, or excluded exactly as asked',
 'If part of the input is missing or NaN, every result entry that depends on it is NaN or the job fails; it is never silently averaged over the remaining data, however the data is chunked and combined. When masking (or skip-NaN) is requested, exactly the masked (or NaN) values are excluded from both the weighted sum and the weights, all other values keep their full weight, and an unmasked NaN (for example in the predictions) is still loud. Entries that do not depend on the missing data are unaffected (the other bins of the same kept entry excepted, which an unmasked NaN may reach as documented).',
 ['fault_sequences', 'inputs', 'schedules'],
 'every placement of lost storage blocks, NaN values and mask gaps over targets and predictions, for every chunking and merge order',
 'The tests use one mask pattern in a single chunk; lost storage blocks and their interaction with merging are not tested.',
 [W+'aggregation.py', W+'data_loaders/base.py', W+'beam_pipeline.py'],
 [('NaN propagation (no skipping unless asked)', W+'aggregation.py: Aggregator.aggregate_stat_var'),
  ('mask coordinate from target NaNs', W+'data_loaders/base.py: add_nan_mask_to_data')],
 [('mask coordinate', 'which values to evaluate', W+'data_loaders/base.py')],
 ['metrics file', 'job outcome'])

prop('C07', 'The unaggregated output holds every statistic value exactly once, in place',
 'When a job that writes unaggregated statistics reports success, the store contains, for every requested initialisation and lead time, exactly the statistic value obtained from that forecast and its target, at the matching coordinates, with no entry missing, duplicated, shifted or left at the fill value, and with correct valid times. This holds for every input chunking and output chunking, every order of processing, and any crash, retry or duplicate of any piece of the work.',
 ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
 'every chunk-size pair, output chunking, schedule and placement of crashes, retries and duplicates',
 'The tests write one store with one runner and no failures.',
 [W+'beam_pipeline.py', W+'time_chunks.py'],
 [('template from the first chunk', W+'beam_pipeline.py: _get_template_dataset'),
  ('offset keys', W+'beam_pipeline.py: ComputeAndFormatStatistics'),
  ('rechunk and write', W+'beam_pipeline.py: define_unaggregated_pipeline')],
 [], ['Zarr store read back after the job'])

prop('C08', 'A data loader returns the right data whatever it was asked before',
 'For a request of initialisation and lead times a loader returns exactly the stored values belonging to those times (for targets the values at initialisation plus lead time, for persistence the values at initialisation time, for climatologies the values of the matching day and hour), labelled with the requested times, and leaves its source unchanged. The answer depends only on the loader\'s configuration and the request: not on earlier requests, on failed or interrupted earlier requests, on having been copied to another process, or on other threads using the loader at the same time.',
 ['histories', 'fault_sequences', 'crash_points', 'schedules'],
 'every sequence of requests, storage errors, interruptions at any point, process copies and concurrent uses',
 'The tests issue one successful request per loader.',
 [W+'data_loaders/base.py', W+'data_loaders/xarray_loaders.py'],
 [('lazy opening and preparation on first use', W+'data_loaders/xarray_loaders.py: XarrayDataLoader.maybe_prepare_dataset'),
  ('label-based selection', W+'data_loaders/xarray_loaders.py: _load_chunk_from_source')],
 [('prepared dataset and prepared flag', 'cached opened data', W+'data_loaders/xarray_loaders.py')],
 ['values and coordinates returned by each request', 'source dataset before and after'])

prop('C09', 'Latency adjustment uses the freshest forecast issued, never the future',
 'With operational latencies configured, the data returned for a requested initialisation time comes from the most recent forecast that had already been issued at that time (nominal time plus latency not after the requested time, with availability exactly at that time counting as issued), taken at the lead time that verifies at the same moment, and is labelled with the requested initialisation and lead times. With several forecast streams the freshest stream wins and ties go to the stream with the larger latency. If nothing had been issued yet the request fails; a forecast issued later is never used.',
 ['inputs', 'histories', 'configurations'],
 'every archive of nominal times (irregular, with gaps, unsorted), latency, request time and combination of streams, in any request order and chunking',
 'The tests check two or three hand-picked init times with regular 12 h archives.',
 [W+'data_loaders/latency_wrappers.py'],
 [('choice of the available run', W+'data_loaders/latency_wrappers.py: get_available_init_time'),
  ('choice of stream', W+'data_loaders/latency_wrappers.py: MultipleConstantLatencyWrapper._get_data_loader')],
 [('nominal init times', 'archive of runs', W+'data_loaders/latency_wrappers.py')],
 ['values and coordinates of returned chunks', 'requests made of the underlying archive'])

prop('C10', 'Sparse observations: each requested one exactly once, or an error',
 'A request to the sparse observation loader returns exactly the observations whose time lies in the requested window (exact time, tolerance window or lead-time interval, with the configured end-point rule), each exactly once per requested (initialisation, lead) pair and labelled with that pair, whatever the partitioning of the files, the order of rows and the position of the window relative to partition boundaries. If a file that is needed is missing, unreadable or damaged in a way its format can notice, the request fails rather than returning fewer observations, and a later request after the storage has recovered returns the full answer.',
 ['inputs', 'fault_sequences', 'histories', 'configurations'],
 'every layout of observations over hour, day and month partitions, every window, and every missing, truncated, corrupted or failing file',
 'The tests read a handful of fixed files with no storage faults.',
 [W+'data_loaders/sparse_parquet.py'],
 [('partition enumeration around the window', W+'data_loaders/sparse_parquet.py: get_parquet_files_subset'),
  ('row filter', W+'data_loaders/sparse_parquet.py: _load_data_for_single_time'),
  ('closest duplicate selection', W+'data_loaders/sparse_parquet.py: _pick_closest_from_duplicates')],
 [], ['returned observations', 'raised errors'])

prop('C11', 'Bootstrap resamples are faithful, paired and never hide missing data',
 'Every bootstrap replicate equals the metric computed from a genuine resample with replacement of the experimental units (whole clusters for the cluster method, wrap-around blocks for the block method), of the original number of units, with the same draw applied to every statistic, variable and weight entering one metric value. Resampling is the same for both sides of a paired comparison, so comparing a system with itself gives exactly zero; a unit with missing data makes the replicates that draw it NaN instead of being dropped. Point estimates equal the metric of the full sample, interval ends are ordered, and draws reach every unit. Intervals, standard errors and p-values agree with each other and with the replicates, and a system compared with itself is never significant.',
 ['inputs', 'histories', 'configurations'],
 'every random draw sequence, number of units, cluster structure, block length, weights and missing-data pattern',
 'The tests check coverage statistically on a few Gaussian examples; they do not look at the draws.',
 [W+'statistical_inference/bootstrap.py', W+'statistical_inference/baseline_comparison.py', W+'statistical_inference/utils.py'],
 [('multinomial counts times statistics', W+'statistical_inference/bootstrap.py: IIDBootstrap, ClusterBootstrap'),
  ('stationary block indices', W+'statistical_inference/bootstrap.py: stationary_bootstrap_indices'),
  ('joint resampling for comparisons', W+'statistical_inference/baseline_comparison.py')],
 [('random generator', 'source of draws', 'numpy global generator')],
 ['resampled values', 'point estimates', 'confidence intervals'])

prop('C12', 'The same inputs and seed give the same results in every process',
 'Running the same evaluation or the same seeded statistical inference again, in another process, with a different hash seed or after other work in the process, gives the same values, the same variables in the same order and the same draws. Results never depend on wall-clock time, process identity or iteration order of unordered collections.',
 ['histories', 'schedules', 'configurations'],
 'every hash seed, process, clock reading and prior history of the process',
 'The tests run in one process under one hash seed.',
 [W+'statistical_inference/bootstrap.py', W+'statistical_inference/baseline_comparison.py', W+'metrics/base.py', W+'aggregation.py'],
 [('all randomness from the seeded generator', W+'statistical_inference/bootstrap.py'),
  ('ordered iteration over metrics, statistics and variables', W+'metrics/base.py; '+W+'statistical_inference/baseline_comparison.py')],
 [], ['result datasets of two processes'])

prop('C13', 'A saved aggregation state is a complete substitute for re-evaluating',
 'The aggregation state a job saves yields, when read back, exactly the metric values the same job wrote, for every metric computable from those statistics. States saved by several jobs that split the initialisation times between them, in any order of completion and after any crash and rerun of a job, add up to the state and metrics of one job over all times, and reducing a time dimension after loading equals having reduced it in the job.',
 ['histories', 'crash_points', 'configurations', 'schedules'],
 'every split of the times into jobs, order of completion, crash and rerun, and every kept-dimension configuration',
 'The tests read back one saved state of one job.',
 [W+'beam_pipeline.py', W+'aggregation.py'],
 [('state file', W+'beam_pipeline.py: WriteAggregationState'),
  ('restore and merge', W+'aggregation.py: AggregationState.from_dataset, sum, sum_along_dims')],
 [], ['state files', 'metrics files'])

prop('C14', 'Any failure inside a job fails the job: nothing partial is published',
 'If loading, a metric, a binning, a weighting, a combine step or the final write fails with an exception of any kind and keeps failing on retry, the job reports failure and no result file is created or replaced. A job never reports success with a statistic, variable, chunk or metric silently left out because of an error.',
 ['fault_sequences', 'schedules'],
 'every failing step, exception kind, failing chunk, statistic or variable, and number of failed attempts',
 'The tests contain no failing component inside a pipeline.',
 [W+'beam_pipeline.py', W+'beam_utils.py', W+'metrics/base.py', W+'aggregation.py'],
 [('exceptions propagate to the runner', W+'beam_pipeline.py'),
  ('results written only from the complete aggregate', W+'beam_pipeline.py: WriteMetrics, WriteAggregationState')],
 [], ['job outcome', 'output directory'])

prop('C15', 'Combined benchmark tables contain every available result, unaltered',
 'Combining per-model benchmark files includes every model whose result file exists, with its values unchanged, at its own model, year, region, lead-time and level entry, and never mixes two models or variables. A result file that exists but cannot be read, now or temporarily, makes the combination fail; it is never reported or treated as absent. A combination that could not be completed says so, and no later run passes left-over outputs of an earlier or failed run off as its own.',
 ['fault_sequences', 'inputs', 'histories'],
 'every subset of existing files, every transient or permanent read error, damaged file and order of reads',
 'The script has no tests.',
 ['public_benchmark/combine_results.py'],
 [('per-model loading loop', 'public_benchmark/combine_results.py: process_results')],
 [], ['combined output datasets', 'process outcome'])

prop('C16', 'Evaluations sharing objects in one process do not disturb each other',
 'When several evaluations run at the same time in threads of one process, sharing loaders, metrics, aggregators, binnings, weightings, masks or loaded datasets, each of them gets exactly the result it gets when run alone. No evaluation step modifies the predictions, targets, statistics or configuration objects handed to it.',
 ['schedules', 'histories'],
 'every interleaving of the evaluations at source-line granularity and every set of shared objects',
 'The tests run evaluations one at a time.',
 [W+'aggregation.py', W+'metrics/base.py', W+'metrics/wrappers.py', W+'binning.py', W+'weighting.py', W+'data_loaders/xarray_loaders.py', W+'interpolations.py'],
 [('no shared mutable state', W+'aggregation.py: Aggregator; '+W+'metrics/base.py'),
  ('lazy preparation of loaders', W+'data_loaders/xarray_loaders.py: maybe_prepare_dataset')],
 [], ['result of each evaluation', 'shared objects before and after'])

prop('C21', 'A benchmark evaluation holds exactly what its command line asked for',
 'A run of an evaluation script (public_benchmark/run_benchmark_evaluation.py with public_configs.py, or evaluation_scripts/run_example_evaluation.py) that reports success writes, under the expected file name, the metrics of exactly the requested initialisation times (start inclusive, stop exclusive), lead times, levels, variables available on both sides, regions and land variants, for the named system, target, resolution and year (persistence, climatology, probabilistic climatology and ensemble members included), every value computed from forecasts and targets valid at the same time, whatever the chunk sizes, schedule, crashes, duplicated work and retries. If an archive cannot be read the run fails and leaves no result. Running one evaluation changes neither the shared configuration nor the archives, and nothing carries over into the next evaluation in the same process.',
 ['configurations', 'schedules', 'fault_sequences', 'histories'],
 'every combination of flags, archive contents, chunk sizes, schedules, read failures and preceding evaluations',
 'No test runs the evaluation scripts or their configuration at all.',
 ['public_benchmark/run_benchmark_evaluation.py', 'public_benchmark/public_configs.py', 'evaluation_scripts/run_example_evaluation.py', W+'beam_pipeline.py'],
 [('flags turned into times, loaders, metrics and aggregators', 'public_benchmark/run_benchmark_evaluation.py: main'),
  ('named loaders, metrics and aggregators', 'public_benchmark/public_configs.py')],
 [('configuration dictionaries', 'shared by all evaluations of a process', 'public_benchmark/public_configs.py')],
 ['result files', 'aggregation-state files', 'exit with or without an error'])

# --- not decidable with this family: pure functions -------------------------
prop('C17', 'Each metric equals its published definition',
 'Every provided deterministic, categorical, probabilistic and spatial metric returns, for a single block of predictions and targets, the value of its textbook definition (for example the fair CRPS, the fractions skill score, SEEPS, contingency-table scores), including its documented edge cases.',
 ['inputs'], 'every predictions/targets pair',
 'Tests sample a few arrays.',
 [W+'metrics/deterministic.py', W+'metrics/categorical.py', W+'metrics/probabilistic.py', W+'metrics/spatial.py', W+'metrics/wrappers.py'],
 [('metric formulas', W+'metrics')])
prop('C18', 'Area weights, bins and interpolation follow their geometry',
 'Latitude weights are proportional to the exact area of the grid cells, region and land/sea bins contain exactly the points inside them (across the date line and at the poles), and interpolation reproduces the values its method defines at each target point.',
 ['inputs'], 'every grid, region and target point',
 'Tests sample a few grids.',
 [W+'weighting.py', W+'binning.py', W+'interpolations.py'],
 [('geometry formulas', W+'weighting.py; '+W+'binning.py; '+W+'interpolations.py')])
prop('C19', 'Analytic tests and linearisation match their formulas',
 'The t-test family, its autocorrelation corrections and the automatic linearisation of metrics return the standard errors, intervals, p-values and derivatives of their cited formulas.',
 ['inputs'], 'every per-unit statistics table',
 'Tests check coverage on simulated Gaussian data.',
 [W+'statistical_inference/t_test.py', W+'statistical_inference/autodiff.py'],
 [('formulas', W+'statistical_inference/t_test.py; '+W+'statistical_inference/autodiff.py')])
prop('C20', 'Different statistic settings never share one cached statistic',
 'Two statistics in one evaluation that differ in any setting which changes their values are kept apart, and equal ones are computed once.',
 ['configurations'], 'every pair of statistic configurations',
 'Tests use one configuration of each metric at a time.',
 [W+'metrics/base.py', W+'metrics/deterministic.py', W+'metrics/categorical.py', W+'metrics/probabilistic.py'],
 [('unique names', W+'metrics/base.py: Statistic.unique_name')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
  for p in P:
    assert len(p['title']) <= 80, p['title']
    f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
