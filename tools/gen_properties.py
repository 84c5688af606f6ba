"""Writes properties.jsonl (kept as a script so that wording is reviewed in one place)."""
import json, os
W='weatherbenchX/'
def P(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
  d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
    anchors=dict(files=[f[1:] if f[0]=='/' else W+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
  if state: d['anchors']['state']=state
  d['anchors']['observe_at']=observe or []
  d['anchors']['hook_needed']=None
  assert len(title)<=80,title
  return d
L=[]
L.append(P('P01','Chunked evaluation equals one-shot evaluation',
 'For every set of forecasts and observations, splitting the evaluation into any chunks over initialization and lead time, aggregating each chunk separately and adding the partial results in any order or grouping gives the same weighted sums, weights and metric values as evaluating everything at once. Chunks whose coordinates only partly overlap (or do not overlap) contribute exactly their own data, nothing is dropped or counted twice, and an empty partial result is neutral.',
 ['inputs','histories','configurations'],'all data sets, chunkings, merge orders/groupings, metric sets, binnings and reduced dimensions',
 'Tests sum two or three hand-made states; they never vary the chunking, the merge tree, missing coordinates per chunk or the metric and binning mix.',
 ['aggregation.py','beam_utils.py','metrics/base.py'],[('zero-filled outer-join sum','aggregation.combining_sum'),('AggregationState.sum/__add__/zero','aggregation.AggregationState'),('CombiningSum CombineFn','beam_utils.CombiningSum')],
 ['AggregationState.sum_weighted_statistics / sum_weights','AggregationState.metric_values']))
L.append(P('P02','Aggregated statistics are the documented weighted mean',
 'For every statistic, the aggregated value in each bin equals the sum over the reduced dimensions of value times all weights times all bin indicators, divided by the same sum of weights times indicators, and dimensions not reduced are kept with their coordinates. Reducing in two stages gives the same result as reducing once; variables that lack a reduced or binned dimension are left out and never silently averaged some other way.',
 ['inputs','configurations'],'all array shapes, dimension orders, dtypes, subsets of reduced dimensions, products of weightings and binnings',
 'Tests compare a few fixed shapes; the combination of weights, several binnings, dimension order, dtype and missing dimensions is never explored.',
 ['aggregation.py'],[('weighted, binned reduction','aggregation.Aggregator.aggregation_fn'),('normalisation','aggregation.AggregationState.mean_statistics'),('second-stage reduction','aggregation.AggregationState.sum_along_dims / dot / map')],
 ['Aggregator.aggregate_statistics','compute_metric_values_for_single_chunk']))
L.append(P('P03','Missing values are never silently averaged away or invented',
 'By default a missing value anywhere in the averaged data makes exactly the affected averages missing; with masking enabled, masked-out positions change neither the averages nor their weights whatever value they hold, while a missing value at an unmasked position still makes the affected averages missing. Only when skipping missing values is explicitly requested are they left out, and then from the values and the weights alike; a group with no contributing data yields a missing value, never a number.',
 ['inputs','configurations'],'all placements of missing values and masks, all combinations of the masking and skipping options, weights and bins',
 'Tests place one or two missing values in one layout; the guarantee is about every placement, mask shape and option combination.',
 ['aggregation.py','data_loaders/base.py'],[('masking / skipna handling','aggregation.Aggregator.aggregate_stat_var'),('mask creation','data_loaders.base.add_nan_mask_to_data')],
 ['AggregationState.mean_statistics','AggregationState.sum_weights']))
L.append(P('P04','Aggregation results survive serialization unchanged',
 'Converting accumulated results to their tree or flat dataset form, including writing that form to a file and reading it back, and converting back yields the same statistic names, variable names, dimensions, coordinates, values and weights, so that metric values computed afterwards, and sums with further partial results, are identical.',
 ['inputs','histories'],'all statistic/variable name sets, shapes, coordinates and dtypes admitted by each form, and sequences of save, load and add',
 'Tests round-trip one fixed state; names with punctuation, scalar results, several statistics with different dimensions and save/load/add histories are not exercised.',
 ['aggregation.py'],[('to_data_tree/from_data_tree','aggregation.AggregationState'),('to_dataset/from_dataset','aggregation.AggregationState')],
 ['AggregationState.to_data_tree','AggregationState.to_dataset']))
L.append(P('P05','Distributed evaluation equals in-memory evaluation',
 'For every choice of time chunking, data loaders, metrics and aggregation, the metrics file and the aggregation-state file written by the distributed pipeline hold the same values and coordinates as evaluating the complete period in memory, regardless of how work is split or in which order partial results are merged.',
 ['inputs','configurations','schedules'],'all time chunkings (including observation windows), loaders with chunk-dependent coordinates, metrics, binnings, kept or reduced time dimensions',
 'The pipeline tests use a handful of fixed chunkings on one data set with one or two metrics.',
 ['beam_pipeline.py','beam_utils.py','time_chunks.py','aggregation.py'],[('per-chunk statistics and keys','beam_pipeline.ComputeStatisticsAggregateAndPrepareForCombine'),('concatenation of kept dims','beam_pipeline.ConcatPerStatisticPerVariable'),('reassembly','beam_pipeline.reconstruct_aggregation_state')],
 ['netCDF files written by define_pipeline']))
L.append(P('P06','The unaggregated store holds every statistic at its own place',
 'The store written by the unaggregated distributed pipeline contains, for every requested statistic, variable, initialization time and lead time, exactly the value obtained by computing that statistic directly on the complete data, with matching time coordinates, whatever the computation chunking and storage chunking are.',
 ['inputs','configurations'],'all time chunkings, storage chunkings, dimension orders and sets of statistics with compatible coordinates',
 'One fixed example is tested; chunk-offset arithmetic and rechunking over other sizes is not.',
 ['beam_pipeline.py','time_chunks.py'],[('chunk keys and layout','beam_pipeline.ComputeAndFormatStatistics'),('template','beam_pipeline._get_template_dataset'),('offsets','time_chunks.TimeChunks.iter_with_chunk_offsets')],
 ['Zarr store written by define_unaggregated_pipeline']))
L.append(P('P07','Result files are replaced all-or-nothing',
 'At every moment and after a failure or crash at any point while a result file is being written, the destination holds either its complete previous content (or is absent if it never existed) or the complete new content, never a partial one; this holds for concurrent writers of the same destination too. A failed write reports its error and leaves no stray temporary file behind, and a successful one leaves only the destination.',
 ['crash_points','fault_sequences','schedules','inputs'],'all file contents, destinations, prior states, injected failures or process deaths at each file operation, and interleavings of concurrent writers',
 'No test injects a fault, kills a writer or runs two writers against one destination.',
 ['beam_utils.py','beam_pipeline.py'],[('write to temporary, then move','beam_utils.atomic_write')],
 ['destination path contents','directory listing']))
L.append(P('P08','Time chunks partition the evaluation period',
 'Iterating the time chunks visits every requested (initialization time, lead time) pair exactly once, in the requested order and never in a chunk larger than requested; the length, indexed access and iteration with offsets agree with plain iteration, and each offset is the position of its chunk within the full list. Lead-time windows are passed through unchanged, and invalid chunk sizes or windows are rejected with an error.',
 ['inputs','configurations'],'all lists of initialization and lead times (any length, order and time unit), windows and chunk sizes',
 'Tests check two chunkings; offsets, indexing and rejection are not covered over sizes.',
 ['time_chunks.py'],[('TimeChunks','time_chunks.TimeChunks'),('iter_with_chunk_offsets','time_chunks.TimeChunks')],
 ['TimeChunks iteration, len, indexing, offsets']))
L.append(P('P09','Geographic bins contain exactly the points inside them',
 'A named rectangular region contains exactly the points whose latitude and longitude lie within its closed limits, with longitude compared on the circle so that regions crossing the 0/360 or dateline meridian and either longitude convention work; latitude and longitude bands behave the same, labelled by their starting edge. Land/sea bins split points by the land-fraction threshold, land-only regions are the region intersected with land, and a global bin contains everything.',
 ['inputs','configurations'],'all latitude/longitude grids or point sets, conventions, orientations, region limits, band widths/ranges, land fractions and thresholds',
 'Tests use a few fixed regions on one regular grid.',
 ['binning.py'],[('Regions, LandSea, LatitudeBins, LongitudeBins','binning')],['create_bin_mask','per-bin aggregated values']))
L.append(P('P10','Time, value and set bins contain exactly the matching samples',
 'Binning by exact coordinate value, calendar or elapsed time unit (from timestamps, durations or plain seconds), half-open value intervals, or named sets assigns each sample to exactly the bins whose label describes it; every distinct value has a bin where bins are discovered from data, complements hold precisely the rest, and a global bin holds everything. Per-bin results therefore equal evaluating the selected samples alone.',
 ['inputs','configurations'],'all coordinate values (times, durations, strings, numbers; dimensions or attached coordinates), units, edges, sets and options',
 'Tests cover one small example per bin type.',
 ['binning.py'],[('ByExactCoord, ByTimeUnit, ByTimeUnitSets, ByTimeUnitFromSeconds, ByCoordBins, BySets','binning')],['create_bin_mask','per-bin aggregated values']))
L.append(P('P11','Area weights are proportional to spherical cell area',
 'For every strictly monotonic latitude grid of at least two rows the weight of each row is positive and proportional to the area of its cell on the sphere, with cell boundaries midway between rows and clipped at the poles; the weights average to one when normalized, follow the rows when latitudes are reversed, and depend on nothing but latitude. Data without a latitude dimension is weighted uniformly, and non-monotonic latitudes are rejected.',
 ['inputs','configurations'],'all latitude grids (uneven, partial, with or without poles, ascending or descending, different dtype) and statistic shapes',
 'Tests compare one regular grid with the cosine.',
 ['weighting.py'],[('GridAreaWeighting','weighting.GridAreaWeighting'),('cell bounds','weighting.latitude_cell_bounds')],['weights()','area-weighted metric values']))
L.append(P('P12','Deterministic scores match their mathematical definition',
 'Bias, mean absolute, mean squared and root mean squared error, vector wind error, prediction/target averages, intensity and exceedance scores equal their textbook formulas applied to the paired forecasts and observations, for every variable independently; coordinates are matched by label. Missing inputs yield missing results, including where a result is defined by a comparison.',
 ['inputs','configurations'],'all prediction/target arrays (dtype, shape, dimension order, missing values, extra dimensions), variable sets and metric parameters',
 'Tests use constant or random arrays of one shape and check a few values or signs.',
 ['metrics/deterministic.py','metrics/base.py'],[('deterministic statistics and metrics','metrics.deterministic')],['metric values via the aggregator']))
L.append(P('P13','Climatology is matched to forecasts by valid time',
 'Anomaly-based scores (anomaly correlation, activity, anomaly amplitudes, precipitation category score) use, for every forecast, the climatology entry of that forecast\'s own valid time (initialization plus lead, by date or by day of year and hour) and of the same variable and place. The resulting scores equal their formulas computed from those entries for every combination of times.',
 ['inputs','configurations'],'all initialization/lead time sets or direct valid times (leap days, year ends, any hour), climatology layouts, grids and dimension orders',
 'Tests use one climatology layout with a handful of times, far from leap days or year ends.',
 ['metrics/base.py','metrics/deterministic.py','metrics/categorical.py'],[('valid-time alignment','metrics.base.PerVariableStatisticWithClimatology'),('ACC / PredictionActivity','metrics.deterministic'),('SEEPSStatistic','metrics.categorical')],['metric values']))
L.append(P('P14','Categorical scores follow from the contingency table',
 'For binary forecasts and observations the hit, miss, false-alarm and correct-negative indicators partition the valid pairs exactly (missing pairs stay missing), and accuracy, critical success index, recall, false-alarm rate, precision, F1, frequency bias, Heidke, equitable threat and extremal-dependence scores equal their textbook functions of the averaged table. Swapping forecast and observation, or complementing both, transforms the scores as the formulas dictate.',
 ['inputs','configurations'],'all binary/probability arrays with missing values, dtypes, weights and bins',
 'Tests check each score on one or two tables.',
 ['metrics/categorical.py'],[('contingency statistics and scores','metrics.categorical')],['metric values']))
L.append(P('P15','Multi-category and reliability scores match their definitions',
 'Ranked probability scores, reliability tables and confidence/coverage/overlap scores equal their definition computed category by category or bin by bin from the raw forecasts and observations, for every set of category edges and either interval convention. Scores are zero for perfect forecasts, are never negative where the definition forbids it, and missing inputs stay missing.',
 ['inputs','configurations'],'all probability or ensemble forecasts, category edges, interval conventions, dimension names and missing values',
 'Tests check a few hand-computed examples.',
 ['metrics/categorical.py','metrics/probabilistic.py'],[('RankedProbabilityScore, Reliability, Confident/Covered/JaccardDistant','metrics.categorical'),('EnsembleRankedProbabilityScore','metrics.probabilistic')],['metric values']))
L.append(P('P16','Ensemble CRPS family matches its definition',
 'The continuous ranked probability score and its skill, spread and energy-style distance parts equal the pairwise-difference definition, biased or fair as requested, whichever internal algorithm is selected; they do not depend on member order, scale and shift as the definition implies, and reduce to absolute error for one member where defined. Missing members are either propagated or ignored exactly as requested.',
 ['inputs','configurations'],'all ensembles and (ensemble) targets: sizes from one up, ties, missing members, dtypes, dimension order, fair and biased variants, both algorithms',
 'Tests fix one random ensemble, and compare a few variants at one size.',
 ['metrics/probabilistic.py'],[('CRPSSkill, CRPSSpread, CRPSEnsemble, CRPSEnsembleDistance, WassersteinDistance','metrics.probabilistic')],['statistic and metric values']))
L.append(P('P17','Ensemble spread, bias-correction and rank scores match definitions',
 'Ensemble variance, bias-corrected ensemble-mean squared error, spread-skill ratios, ensemble-mean and member-averaged scores, rank histograms and relative economic value equal their definitions for every ensemble; they are invariant to member order, and each rank histogram sums to one, the rank being the number of members strictly below the target. A single-member or constant ensemble gives the value its definition implies.',
 ['inputs','configurations'],'all ensembles (sizes, ties, missing members, dimension names/orders), targets, probability thresholds and cost/loss ratios',
 'Tests check one ensemble size, without ties or missing members.',
 ['metrics/probabilistic.py','metrics/wrappers.py'],[('EnsembleVariance, UnbiasedEnsembleMeanSquaredError, SpreadSkillRatio, RankHistogram, RelativeEconomicValue, EnsembleAveragedMetric','metrics.probabilistic')],['statistic and metric values']))
L.append(P('P18','Input transforms compose exactly as documented',
 'A score wrapped with input transforms equals the plain score evaluated on inputs transformed by hand in the listed order, applied to predictions, targets or both as requested, for every transform: thresholding, binning, cumulative and quantile conversions, ensemble averaging, rectifying, shifting, selecting, stacking, renaming and subselecting. Thresholding and binning are exact at the boundaries, keep missing values missing, and each score value carries the threshold it belongs to.',
 ['inputs','configurations'],'all pipelines of transforms, parameters, thresholds on and off data values, missing values and variables',
 'Tests exercise each transform once with default options.',
 ['metrics/wrappers.py'],[('InputTransform subclasses','metrics.wrappers'),('WrappedStatistic / WrappedMetric','metrics.wrappers')],['wrapped statistic and metric values']))
L.append(P('P19','Neighbourhood (fractions) scores equal brute-force neighbourhoods',
 'The fractions skill score and neighbourhood averages equal averaging, around every grid point, the square neighbourhood of the requested size, wrapping around the longitude circle only when requested and padding or masking as documented; the score is one for identical fields and lies between zero and one. Results do not depend on dimension order or on other neighbourhood sizes evaluated alongside.',
 ['inputs','configurations'],'all grids, odd neighbourhood sizes, wrap and mask options, missing values, dimension orders',
 'Tests look at one small grid and one or two sizes.',
 ['metrics/spatial.py'],[('neighbourhood averaging','metrics.spatial'),('FSS','metrics.spatial.FSS')],['statistic and metric values']))
L.append(P('P20','Interpolation returns the field value at the requested place',
 'Interpolating to reference or fixed points reproduces grid values exactly at grid points, reproduces fields linear in the coordinates exactly between them, treats longitude as a circle in any convention when asked, and gives missing values (or extrapolates) outside the grid as configured; nearest-neighbour interpolation returns the value of a nearest grid point. Cropping, subsampling, altitude adjustment and neighbourhood threshold probabilities equal their definitions, chained interpolations apply in order, and every target point keeps its own coordinates.',
 ['inputs','configurations'],'all grids (order, convention, spacing), target point sets including empty ones and duplicates, methods and options',
 'Tests use one regular grid and a few points.',
 ['interpolations.py'],[('InterpolateToReferenceCoords, InterpolateToFixedCoords, CropToBox, Subsample, GridToSparseWithAltitudeAdjustment, NeighborhoodThresholdProbabilities','interpolations')],['interpolate()']))
L.append(P('P21','Loaded chunks hold exactly the source data for the requested times',
 'For every request of initialization and lead times, gridded prediction, target, climatology, persistence and probabilistic-climatology loaders return for each pair precisely the source values belonging to that pair (forecast entry, valid-time value, climatological entry for that day and hour, initial value, or the values of past years at the same day of the year and hour) under the requested time labels. Variable selection, renaming, level/coordinate selection, derived processing, missing-value masks and value coordinates apply exactly as configured and nothing else changes.',
 ['inputs','configurations'],'all data sets, time requests (order, overlap, leap days, year ends), loader options and chunk boundaries',
 'Tests read a couple of fixed chunks.',
 ['data_loaders/xarray_loaders.py','data_loaders/base.py'],[('XarrayDataLoader family','data_loaders.xarray_loaders'),('load_chunk','data_loaders.base.DataLoader')],['load_chunk()']))
L.append(P('P22','Latency-adjusted forecasts never use data from the future',
 'For every query time, a latency-adjusted forecast uses the most recent initialization already available at that time (nominal time plus latency not later than the query), never a later one, with the lead time stretched so that the valid time is unchanged, and returns it under the queried labels. With several sources the most recently available forecast among all of them is used; a query for which no forecast is available yet or whose stretched lead time is not on file never yields another forecast\'s values.',
 ['inputs','configurations'],'all sets of available initialization times, latencies, query times and lead times, and combinations of sources',
 'Tests use one regular schedule and a few queries.',
 ['data_loaders/latency_wrappers.py'],[('ConstantLatencyWrapper, XarrayConstantLatencyWrapper, MultipleConstantLatencyWrapper','data_loaders.latency_wrappers')],['load_chunk()']))
L.append(P('P23','Sparse observations are matched to forecasts completely and only once',
 'For every request, the sparse-observation loader returns exactly the stored observations whose time lies in the requested window or tolerance around each forecast valid time, each tagged with the initialization and lead time it verifies, none lost at file-partition boundaries, with duplicates, missing values and quality rules handled as configured.',
 ['inputs','configurations'],'all observation tables, partitionings by hour/day/month, requested times and windows, tolerances and options',
 'There is no test of this loader at all.',
 ['data_loaders/sparse_parquet.py'],[('SparseObservationsFromParquet','data_loaders.sparse_parquet'),('METARFromParquet','data_loaders.sparse_parquet')],['load_chunk()']))
L.append(P('P24','Parametric significance tests are calibrated to their formulas',
 'Point estimates always equal the plain metric values of the same data; standard errors, confidence intervals and p-values equal the stated test (independent samples, paired differences, autocorrelation-inflated or long-run-variance) computed directly, per variable and per kept dimension. A two-sided interval at level one-minus-alpha excludes the null value exactly when the p-value is below alpha, intervals are nested in alpha, and results do not depend on sample order for independent data nor on units.',
 ['inputs','configurations'],'all per-sample statistics and weights, sample counts, metrics (linear and nonlinear), levels, null values and kept dimensions',
 'Tests check Monte-Carlo coverage of a few fixed distributions with loose tolerances.',
 ['statistical_inference/t_test.py','statistical_inference/base.py','statistical_inference/utils.py'],[('TTest family','statistical_inference.t_test')],['point_estimates, standard_error_estimates, confidence_intervals, p_values']))
L.append(P('P25','Bootstrap results are exact functions of their resamples',
 'Bootstrap point estimates equal the plain metric values; every replicate equals the metric evaluated on a genuine resample of whole experimental units (independent units, contiguous circular blocks, or whole clusters, as the method says), intervals, standard errors and p-values are the stated functions of those replicates, and one seed gives one result. Data on which all units agree gives zero-width intervals at the point estimate, and interval endpoints are ordered and nested in the level.',
 ['inputs','configurations','schedules'],'all per-unit statistics, weights, unit counts, block lengths, cluster layouts, seeds, levels and metrics',
 'Tests check Monte-Carlo coverage for a few distributions.',
 ['statistical_inference/bootstrap.py','statistical_inference/utils.py'],[('Bootstrap, IIDBootstrap, ClusterBootstrap, StationaryBootstrap','statistical_inference.bootstrap')],['resampling output, confidence_intervals, p_values']))
L.append(P('P26','Comparisons against a baseline are differences of the same metrics',
 'Comparing a forecast with a baseline reports, for every metric and variable, exactly the metric of the forecast minus (or in the stated relative form against) the metric of the baseline on the same samples, with significance computed on the paired samples; comparing a forecast with itself gives zero and swapping the two flips the sign. Inference requested on slices equals inference on each slice separately.',
 ['inputs','configurations'],'all pairs of forecast and baseline statistics, metric sets, comparison forms, inference methods and slicings',
 'Tests check one metric and one comparison.',
 ['statistical_inference/baseline_comparison.py','statistical_inference/base.py'],[('BaselineComparison','statistical_inference.baseline_comparison'),('apply_to_slices','statistical_inference.utils')],['point estimates, intervals and p-values of the comparison']))
L.append(P('P27','Per-sample linearization of metrics is the true first-order effect',
 'The per-sample contributions used for significance of nonlinear metrics average to zero, equal the centred statistic for metrics that are plain averages, and equal the first-order change of the metric when each sample\'s weight is perturbed, for every differentiable metric of any number of statistics.',
 ['inputs','configurations'],'all metrics (ratios, roots, correlations), per-sample sums and weights, kept dimensions and sample counts',
 'Tests check one or two metrics at one point.',
 ['statistical_inference/autodiff.py','statistical_inference/t_test.py'],[('per_unit_values_linearized_around_mean','statistical_inference.autodiff')],['linearized per-unit values']))
L.append(P('P28','Metrics do not influence each other',
 'Requesting several metrics together returns for each exactly the values it has when requested alone, under the name metric.variable, whatever other metrics (including differently parameterized versions of the same metric) are requested, in whatever order, and although shared intermediate results are computed once. The result contains every requested metric for every variable it is defined on and nothing else.',
 ['inputs','configurations'],'all sets, orders and parameterizations of metrics and wrappers, and variable sets',
 'Tests request one to three metrics with different statistics; parameter collisions are never searched for.',
 ['metrics/base.py','metrics/deterministic.py','metrics/categorical.py','metrics/probabilistic.py','metrics/wrappers.py','aggregation.py'],[('deduplication by unique name','metrics.base.generate_unique_statistics_for_all_metrics'),('re-keying','metrics.base.compute_metric_from_statistics')],['metric values']))
L.append(P('P29','Evaluation never changes its inputs',
 'Loading, interpolating, transforming, scoring, aggregating and testing leave the caller\'s predictions, targets, climatologies, reference data, accumulated results and source data sets unchanged in values, coordinates, names and attributes. Evaluating the same inputs a second time, in any order with other evaluations, therefore gives the same result.',
 ['inputs','histories','configurations'],'all sequences of library operations over shared input objects',
 'Tests build fresh inputs per case and never compare them afterwards.',
 ['metrics/base.py','metrics/wrappers.py','interpolations.py','data_loaders/base.py','aggregation.py','xarray_tree.py'],[('pure functions over xarray objects','whole library')],['inputs before/after each call']))
L.append(P('P30','Structure mapping is leaf-wise and loses nothing',
 'Mapping a function over nested containers or data sets applies it exactly once to each corresponding leaf and returns the same structure with each result under its own key; data sets stay data sets when the results fit together and otherwise become plain mappings with every variable\'s own values and coordinates intact, and results of none are omitted only from data sets.',
 ['inputs','programs'],'all nestings, variable sets, functions (changing values, dims, coordinates, returning none or other types) and numbers of arguments',
 'Tests cover one or two examples per container type.',
 ['xarray_tree.py'],[('map_structure','xarray_tree.map_structure')],['map_structure()']))
L.append(P('P31','Evaluation scripts report exactly the requested evaluation',
 'For every combination of options, the example and the benchmark evaluation script write one file, under the documented name, whose value for each metric, variable, level, region (with and without sea points), lead time and (if kept) initialization time is the documented area-weighted mean over exactly the forecasts initialized from the requested start (included) to the requested stop (excluded) at the requested frequency and lead times, compared with the target at initialization plus lead time. Omitted options mean what is documented: the whole year (or the shorter period of a model without its end), all lead times, default levels and chunking; chunk sizes never change a value. Baselines (persistence, climatology, probabilistic climatology) are evaluated like forecasts.',
 ['inputs','configurations'],'all option combinations, data sets, grid orientations, models and baselines, targets, years, chunk sizes and runners',
 'No test runs the scripts; they need zarr data sets, a configuration module and a pipeline, and every option interacts with the others.',
 ['/public_benchmark/run_benchmark_evaluation.py','/evaluation_scripts/run_example_evaluation.py'],[('time range and default periods','run_benchmark_evaluation.main'),('metric, region and aggregation set-up','run_benchmark_evaluation.main'),('example evaluation','run_example_evaluation.main')],
 ['the result file of each script']))
L.append(P('P32','Combined results keep every score under its own labels',
 'Combining per-model result files yields one store in which each value is found under exactly the model, year, resolution, region, metric, variable, level and lead time of the file and entry it came from, with the documented display names; combinations with no file or no value are missing, and nothing else is changed, dropped or duplicated.',
 ['inputs','configurations'],'all sets of result files with differing models, years, resolutions, regions, metrics, variables, levels and lead times',
 'No test runs the script; values only go astray when files differ in what they cover.',
 ['/public_benchmark/combine_results.py'],[('renaming and metric dimension','combine_results.process_results'),('merging over model, year, resolution','combine_results.main')],
 ['the combined zarr store']))
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
  for d in L: f.write(json.dumps(d)+'\n')
for d in L:
  assert d['statement'].count('. ')<=2,(d['id'])
print(len(L))
