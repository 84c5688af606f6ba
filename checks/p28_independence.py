"""P28: metrics requested together do not influence each other."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_da
from wbxv.core import Discard, test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical as cat, deterministic as det, probabilistic as prob
from weatherbenchX.metrics import spatial, wrappers as wr

RULE = ('2-6 metrics over a common deterministic or ensemble data set; half the sets contain two versions of one metric '
        'or wrapper that differ in exactly one parameter; non-trivial = at least two metrics have values and they '
        'are not all equal')
ASSUMPTIONS = ['where a statistic documents that the caller supplies its identifying suffix, the suffixes given differ',
               'metrics that cannot be evaluated alone on the data are not requested']

VARS = ['u', 'v', 'u_v', 'w']
NI, NL, NLAT, NLON, NM, NR = 3, 2, 3, 4, 3, 2


# ------------------------------------------------------------------ data

def dims_of(case, which):
  d = ['init_time', 'lead_time', 'latitude', 'longitude']
  if case['ens'] and (which == 'p' or case['tens']):
    d = ['number'] + d + (['realization'] if case['two'] and which == 'p' else [])
  return d


def label(d):
  return {'init_time': gen.times(NI, step_h=24), 'lead_time': gen.h2td([6, 12]), 'latitude': np.array([-30., 0., 40.]),
          'longitude': np.array([0., 90., 180., 270.]), 'number': np.arange(NM), 'realization': np.arange(NR)}[d]


def variables(case):
  """The variables of the data set: those the metrics name, at least two."""
  txt = repr([[s['a'], s['w']] for s in case['specs']])
  return VARS if "'w'" in txt or "'u_v'" in txt else VARS[:2]


def data(case):
  out = []
  for which in 'pt':
    dims = dims_of(case, which)
    ds = {}
    for i, v in enumerate(variables(case) + ([which + '_only'] if case['extra'] else [])):
      r = gen.rng([case['seed'], i, ord(which)])
      x = 0.5 + 0.4 * r.normal(size=[len(label(d)) for d in dims])
      x = np.abs(x) if case['pos'] else x
      x = x if case['seed'] % 3 == 2 else np.round(x, 1)  # ties with thresholds
      if case['nan'] and which == 'p' or case['nan'] == 2:
        x = np.where(r.uniform(size=x.shape) < 0.12, np.nan, x)
      ds[v] = xr.DataArray(x, dims=dims, coords={d: label(d) for d in dims}, name=v)
      if case['mask'] and which == 't':
        m = gen.rng([case['seed'], 99]).uniform(size=(NLAT, NLON)) < 0.7
        ds[v] = ds[v].assign_coords(mask=(('latitude', 'longitude'), m))
    out.append(xr.Dataset(ds) if case['dataset'] else ds)
  return out


def climatology(seed, quantiles=False):
  r = gen.rng([seed, 4242])
  ds = {}
  for v in VARS:
    shp = (366, 2, NLAT, NLON)
    x = 0.5 + 0.2 * r.normal(size=shp)
    dims = ['dayofyear', 'hour', 'latitude', 'longitude']
    if quantiles:
      dims = ['quantile'] + dims
      x = np.stack([x - 0.3, x - 0.1, x + 0.1, x + 0.3])
    ds[v] = xr.DataArray(x, dims=dims)
    ds[v + '_seeps_dry_fraction'] = xr.DataArray(r.uniform(0.05, 0.95, size=shp), dims=dims[-4:])
    ds[v + '_seeps_threshold'] = xr.DataArray(0.6 + 0.2 * r.uniform(size=shp), dims=dims[-4:])
  c = dict(dayofyear=np.arange(1, 367), hour=[6, 12], latitude=label('latitude'), longitude=label('longitude'))
  if quantiles:
    c['quantile'] = [0.1, 0.25, 0.75, 0.9]
  return xr.Dataset(ds, coords=c)


_CLIM = {}


def clim(k=0, quantiles=False):
  if (k, quantiles) not in _CLIM:
    _CLIM[k, quantiles] = climatology(k, quantiles)
  return _CLIM[k, quantiles]


def thr(values, dim, kind, n):
  """Per-location or per-variable thresholds; n selects different values."""
  base_ = np.array(values)
  if kind == 'list':
    return [float(x) for x in base_]
  da = xr.DataArray(base_[:, None] + 0.02 * (n + 1) * np.arange(NLAT), dims=[dim, 'latitude'],
                    coords={dim: np.arange(len(base_)), 'latitude': label('latitude')})
  if kind == 'da':
    return da
  return xr.Dataset({v: da + 0.01 * i for i, v in enumerate(VARS)})


# ------------------------------------------------------------------ catalogue
# name -> (parameters, constructor, needs an ensemble)

RENAMED = {'identity2': 1.0}


def binarised(metric, t=(0.5,), which='both', dim='threshold'):
  return wr.WrappedMetric(metric, [wr.ContinuousToBinary(which=which, threshold_value=list(t), threshold_dim=dim)])


THR = [[0.2], [0.5], [0.2, 0.5], [0.5, 0.8], [0.25]]
B = [False, True]
DET = {
    'Bias': ({}, lambda: det.Bias()),
    'MAE': ({}, lambda: det.MAE()),
    'MSE': ({}, lambda: det.MSE()),
    'RMSE': ({}, lambda: det.RMSE()),
    'PredictionAverage': (dict(copy=B), lambda copy: det.PredictionAverage(copy_nans_from_targets=copy)),
    'TargetAverage': (dict(copy=B), lambda copy: det.TargetAverage(copy_nans_from_predictions=copy)),
    'RelativeIntensity': (dict(d=[['latitude', 'longitude'], ['longitude'], ['latitude']]),
                          lambda d: det.RelativeIntensity(spatial_dims=tuple(d))),
    'WindVectorRMSE': (dict(u=['u', 'u_v', 'w'], v=['v', 'w', 'u_v'], n=['wind', 'gust']),
                       lambda u, v, n: det.WindVectorRMSE(u_name=u, v_name=v, vector_name=n)),
    'WindVectorRMSE2': (dict(u=[['u', 'u_v'], ['u_v', 'u'], ['u', 'w']], v=[['v', 'w'], ['w', 'v']],
                             n=[['a', 'b'], ['b', 'a']]),
                        lambda u, v, n: det.WindVectorRMSE(u_name=u, v_name=v, vector_name=n)),
    'WindVectorSquaredError': (dict(u=['u', 'u_v'], v=['v', 'w'], n=['wind', 'gust']),
                               lambda u, v, n: det.WindVectorSquaredError([u], [v], [n])),
    'ACC': (dict(c=[0]), lambda c: det.ACC(climatology=clim(c))),
    'PredictionActivity': (dict(c=[0]), lambda c: det.PredictionActivity(climatology=clim(c))),
    'ErrorExceedance': (dict(t=THR, kind=['list', 'da', 'ds'], n=[0, 1, 2]),
                        lambda t, kind, n: det.ErrorExceedance(thr(t, 'error_exceedance_thresholds', kind, n))),
    'SEEPS': (dict(v=[['u'], ['v'], ['u', 'v'], ['u_v']], dry=[0.25, 0.4, [0.25, 0.4]], lo=[0.1, 0.3, [0.3, 0.1]], hi=[0.85, 0.6, [0.6, 0.85]]),
              lambda v, dry, lo, hi, c=0: cat.SEEPS(v, clim(c), **{
                  k: (x[:len(v)] if isinstance(x, list) else x)
                  for k, x in dict(dry_threshold_mm=dry, min_p1=lo, max_p1=hi).items()})),
    'FSS': (dict(s=[[1], [3], [1, 3], [3, 1], 1, 3], w=B, t=THR[:3]), lambda s, w, t: binarised(spatial.FSS(neighborhood_size_in_pixels=s, wrap_longitude=w), t)),
    'Reliability': (dict(b=[None, [-np.inf, 0.3, 0.6, 1.0], [0.0, 0.5, 1.0]], d=['reliability_bin', 'bin2'], t=[[0.5], [0.7]]),
                    lambda b, d, t: wr.WrappedMetric(
                        cat.Reliability(**({} if b is None else dict(bin_values=b)), bin_dim=d),
                        [wr.ContinuousToBinary('targets', [t[0]], 'tt'), wr.Select('targets', isel=dict(tt=0))])),
    'RPS': (dict(b=[[0.2, 0.5, 0.9], [0.1, 0.5, 0.9]], d=['bin', 'bin2'], right=B),
            lambda b, d, right: wr.WrappedMetric(cat.RankedProbabilityScore(bin_dim=d), [
                wr.ContinuousToCDF('both', b, d, right_inclusive=right)])),
    'RPS2': (dict(d=['bin', 'bin2']),
             lambda d: wr.WrappedMetric(cat.RankedProbabilityScore(bin_dim=d), [
                 wr.ContinuousToCDF('both', [0.2, 0.5, 0.9], 'bin'), wr.ShiftAlongNewDim('predictions', [0.0, 0.5], 'bin2', 'sh')])),
    'REV': (dict(size=[2, 3, 5], clr=[None, [0.1, 0.5], [0.2, 0.5]]),
            lambda size, clr: wr.WrappedMetric(
                prob.RelativeEconomicValue(ensemble_size=size, cost_loss_ratios=None if clr is None else np.array(clr)),
                [wr.ContinuousToBinary('targets', [0.5], 'tt'), wr.Select('targets', isel=dict(tt=0))])),
}
for k in ('CSI', 'Accuracy', 'Recall', 'FalseAlarmRate', 'Precision', 'F1Score', 'FrequencyBias', 'HSS', 'ETS', 'SEDI'):
  DET[k] = (dict(t=THR, which=['both'], dim=['threshold', 'thr2']),
            lambda t, which, dim, k=k: binarised(getattr(cat, k)(), t, which, dim))
for k in ('TruePositives', 'TrueNegatives', 'FalsePositives', 'FalseNegatives'):
  DET[k] = (dict(t=THR), lambda t, k=k: binarised(getattr(cat, k)(), t))

ED = ['number', 'realization']
Q = [(0.1, 0.9), (0.25, 0.9), (0.1, 0.75), (0.25, 0.75)]
ENS = {
    'CRPSEnsemble': (dict(ensemble_dim=ED, use_sort=B, fair=B, skipna_ensemble=B), lambda **k: prob.CRPSEnsemble(**sortok(k))),
    'CRPSSkill': (dict(ensemble_dim=ED, skipna_ensemble=B), lambda **k: prob.CRPSSkill(**k)),
    'CRPSSpread': (dict(ensemble_dim=ED, use_sort=B, fair=B, which=['predictions', 'targets'], skipna_ensemble=B),
                   lambda **k: prob.CRPSSpread(**sortok(k))),
    'CRPSDistance': (dict(use_sort=B, fair=B, skipna_ensemble=B), lambda **k: prob.CRPSEnsembleDistance(**sortok(k))),
    'UEMRMSE': (dict(ensemble_dim=ED, skipna_ensemble=B), lambda **k: prob.UnbiasedEnsembleMeanRMSE(**k)),
    'SSR': (dict(ensemble_dim=ED, skipna_ensemble=B), lambda **k: prob.UnbiasedSpreadSkillRatio(**k)),
    'RootVar': (dict(ensemble_dim=ED, skipna_ensemble=B), lambda **k: prob.EnsembleRootMeanVariance(**k)),
    'Variance': (dict(ensemble_dim=ED, skipna_ensemble=B), lambda **k: prob.EnsembleVariance(**k)),
    'ERPS': (dict(b=[[0.2, 0.5], [0.3, 0.6]], bin_dim=['bin', 'bin2'], ensemble_dim=ED, skipna_ensemble=B, fair=B, right_inclusive=B),
             lambda b, **k: prob.EnsembleRankedProbabilityScore(
*[xr.Dataset({v: (k['bin_dim'], b) for v in VARS + ['tmp']}, coords={k['bin_dim']: b})] * 2, unique_name_suffix=str(b), **k)),
    'EErrorExceedance': (dict(t=THR[:3], kind=['list', 'da', 'ds'], n=[0, 1], e=ED),
                         lambda t, kind, n, e: prob.EnsembleErrorExceedance(thr(t, 'error_exceedance_thresholds', kind, n), ensemble_dim=e)),
    'RankHistogram': (dict(ensemble_dim=ED), lambda **k: prob.RankHistogram(**k)),
    'Wasserstein': (dict(), lambda: prob.WassersteinDistance()),
    'Confident': (dict(ensemble_dim=ED, spread_quantile_boundaries=Q, confidence_threshold=[0.7, 1.2]),
                  lambda c=0, **k: cat.Confident(climatology=clim(c, True), **k)),
    'Covered': (dict(ensemble_dim=ED, interval_quantile_boundaries=Q), lambda **k: cat.Covered(**k)),
    'JaccardDistant': (dict(ensemble_dim=ED, threshold=[0.75, 0.4], interval_quantile_boundaries=Q),
                       lambda **k: cat.JaccardDistant(climatology=clim(0, True), **k)),
    'Opportunism': (dict(ensemble_dim=ED, is_confident=B, is_covered=[None, False, True], is_jaccard_distant=[None, False, True],
                         confidence_quantile_boundaries=Q, coverage_quantile_boundaries=Q, jaccard_distance_quantile_boundaries=Q,
                         confidence_threshold=[0.7, 1.2], jaccard_distance_threshold=[0.75, 0.4]),
                    lambda **k: cat.Opportunism(climatology=clim(0, True), **k)),
    'EnsAveraged': (dict(m=['Bias', 'RMSE', 'MAE', 'ACC'], ensemble_dim=ED, skipna_ensemble=B),
                    lambda m, **k: prob.EnsembleAveragedMetric({'ACC': lambda: det.ACC(clim(0))}.get(m, getattr(det, m))(), **k)),
    'EnsMean': (dict(m=['RMSE', 'Bias'], which=['predictions'], ensemble_dim=ED, skipna=B),
                lambda m, **k: wr.WrappedMetric(getattr(det, m)(), [wr.EnsembleMean(**k)])),
    'EnsMeanBoth': (dict(m=['RMSE', 'Bias'], which=['both', 'predictions', 'targets'], ensemble_dim=['number'], skipna=B),
                    lambda m, **k: wr.WrappedMetric(getattr(det, m)(), [wr.EnsembleMean(skip_if_ensemble_dim_missing=True, **k)])),
    'Weibull': (dict(t=THR[:2], ensemble_dim=ED, skipna=B),
                lambda t, **k: wr.WrappedMetric(det.MSE(), [wr.ContinuousToBinary('both', t, 'threshold'),
                                                            wr.WeibullEnsembleToProbabilistic('predictions', **k)])),
    'Stack': (dict(d=[['number', 'realization'], ['number', 'lead_time']], fair=B),
              lambda d, fair: wr.WrappedMetric(prob.CRPSEnsemble(ensemble_dim='all', fair=fair), [wr.StackToNewDimension('predictions', d, 'all')])),
}


def sortok(k):
  return dict(k, skipna_ensemble=False) if k.get('use_sort') else k


# wrappers applied on top of any metric
def inline(k):
  return {'half': lambda x: 0.5 * x, 'neg': lambda x: -x, 'sq': lambda x: x * x}[k]


WRAP = {
    'sub': (dict(v=[['u'], ['v'], ['u', 'v'], ['u_v'], ['v', 'u_v'], ['u', 'v', 'w'], ['u_v', 'w']]), None),
    'inline': (dict(which=['predictions', 'targets', 'both'], f=['half', 'neg', 'sq']),
               lambda which, f: wr.Inline(which, inline(f), f)),
    'relu': (dict(which=['predictions', 'targets', 'both']), lambda which: wr.ReLU(which)),
    'sel': (dict(which=['both'], a=[dict(isel=dict(latitude=[0, 1])), dict(isel=dict(latitude=[1, 2])),
                                    dict(sel=dict(latitude=[0.0, 40.0])), dict(sel=dict(longitude=95.0), sel_kwargs=dict(method='nearest')),
                                    dict(sel=dict(longitude=95.0), sel_kwargs=dict(method='ffill')),
                                    dict(sel=dict(longitude=95.0), sel_kwargs=dict(method='bfill')),
                                    dict(isel=dict(lead_time=[0])), dict(isel=dict(lead_time=[1]))]),
            lambda which, a: wr.Select(which, **a)),
    'shift': (dict(which=['predictions', 'both', 'targets'], s=[[0.0], [0.1], [0.1, 0.2]], d=['sh', 'sh2']),
              lambda which, s, d: wr.ShiftAlongNewDim(which, s, d, f'shift_{d}_{s}')),
    'bin': (dict(which=['both', 'predictions', 'targets'], t=THR, d=['threshold', 'thr2']), lambda which, t, d: wr.ContinuousToBinary(which, t, d)),
    'bins': (dict(which=['both', 'predictions', 'targets'], b=[[-np.inf, 0.2, 0.6, np.inf], [-np.inf, 0.3, 0.6, np.inf]], d=['bin', 'bin2']),
             lambda which, b, d: wr.ContinuousToBins(which, b, d)),
    'cdf': (dict(which=['both', 'predictions', 'targets'], b=[[0.2, 0.6], [0.3, 0.6]], d=['bin', 'bin2'], right_inclusive=B),
            lambda which, b, d, right_inclusive: wr.ContinuousToCDF(which, b, d, right_inclusive=right_inclusive)),
    'binda': (dict(which=['both'], kind=['da', 'ds'], n=[0, 1]),
              lambda which, kind, n: wr.ContinuousToBinary(which, thr([0.2, 0.6], 'threshold', kind, n), 'threshold', unique_name_suffix=f'{kind}{n}')),
    'named': (dict(which=['predictions'], f=['half', 'neg', 'sq']), None),
}


def params_of(table, name):
  return table[name][0]


def draw_params(draw, ps):
  return {k: draw(st.sampled_from(v)) for k, v in ps.items()}


@st.composite
def wrappers_(draw):
  out = []
  for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
    k = draw(st.sampled_from(sorted(WRAP)))
    out.append([k, draw_params(draw, WRAP[k][0])])
  return out


@st.composite
def spec(draw, pool, name=None):
  name = name or draw(st.sampled_from(pool))
  table = DET if name in DET else ENS
  return dict(m=name, a=draw_params(draw, table[name][0]), w=draw(wrappers_()))


def variant(draw, s):
  """A copy of s that differs in exactly one parameter of the metric or of one wrapper."""
  s = dict(m=s['m'], a=dict(s['a']), w=[[k, dict(a)] for k, a in s['w']])
  spots = [(s['a'], (DET if s['m'] in DET else ENS)[s['m']][0])] + [(a, WRAP[k][0]) for k, a in s['w']]
  spots = [(a, p, k) for a, p in spots for k in p if len(p[k]) > 1]
  if not spots:
    s['w'] = draw(wrappers_())
    return s
  a, p, k = spots[draw(st.integers(0, len(spots) - 1))]
  others = [x for x in p[k] if x != a[k]]
  a[k] = draw(st.sampled_from(others))
  return s


@st.composite
def cases(draw):
  ens = draw(st.booleans())
  pool = sorted(DET) + (sorted(ENS) * 2 if ens else [])
  specs = [draw(spec(pool))]
  for _ in range(draw(st.sampled_from([1, 1, 2, 3, 4]))):
    mode = draw(st.sampled_from(['variant', 'variant', 'new', 'wrapped']))
    if mode == 'variant':
      specs.append(variant(draw, specs[draw(st.integers(0, len(specs) - 1))]))
    elif mode == 'wrapped':  # the same metric under other wrappers
      b = specs[draw(st.integers(0, len(specs) - 1))]
      specs.append(dict(m=b['m'], a=b['a'], w=draw(wrappers_())))
    else:
      specs.append(draw(spec(pool)))
  specs = list(draw(st.permutations(specs)))
  return dict(ens=ens, tens=draw(st.booleans()), two=draw(st.booleans()), seed=draw(gen.seeds), specs=specs, pos=draw(st.booleans()),
              nan=draw(st.sampled_from([0, 1, 2])), mask=draw(st.booleans()), dataset=draw(st.booleans()),
              extra=draw(st.sampled_from([False, False, True])),
              reduce=draw(st.sampled_from([['init_time'], ['init_time', 'lead_time'], ['init_time', 'latitude', 'longitude']])),
              masked=draw(st.booleans()), skipna=draw(st.booleans()))


def build(s):
  m = (DET if s['m'] in DET else ENS)[s['m']][1](**s['a'])
  for k, a in s['w']:
    if k == 'sub':
      m = wr.SubselectVariables(m, a['v'])
    elif k == 'named':
      m = wr.WrappedMetric(m, [wr.Inline(a['which'], inline(a['f']), 'x')], unique_name_suffix='my_' + a['f'])
    else:
      m = wr.WrappedMetric(m, [WRAP[k][1](**a)])
  return m


def tol(case):
  # Sorting and pairwise differences are one statistic up to rounding, here of single-precision indicators.
  loose = any(s['a'].get('use_sort') for s in case['specs'])
  return dict(rtol=1e-5, atol=1e-5) if loose else dict(rtol=1e-12, atol=1e-12)


def evaluate(case, metrics, p, t):
  stats = base.compute_unique_statistics_for_all_metrics(metrics, p, t)
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], masked=case['masked'], skipna=case['skipna'])
  state = agg.aggregate_statistics(stats)
  nested = base.compute_metrics_from_statistics(metrics, state.mean_statistics())
  # One data set has one size per dim: arrays that differ in an unlabelled dim, or label it with strings and numbers,
  # can only be had through the nested result.
  kinds = {}
  for d in nested.values():
    for x in d.values():
      for dim in x.dims:
        kinds.setdefault(dim, set()).add(x[dim].dtype.kind in 'fiu' and 'n' or x[dim].dtype.kind if dim in x.coords else x.sizes[dim])
  joint = state.metric_values(metrics) if all(len(k) == 1 for k in kinds.values()) else None
  return joint, nested


def same_in_joint(a, b, what, case):
  """a (from the joint data set) has b's values at b's labels and nothing elsewhere."""
  if set(a.dims) != set(b.dims):
    fail(f'{what}: dims {a.dims} vs {b.dims}')
  sub = a
  for d in b.dims:
    if d in b.coords:
      miss = [x for x in b[d].values if x not in a[d].values]
      check(not miss, lambda: f'{what}: labels {miss} of {d} are missing')
      sub = sub.sel({d: b[d].values})
  same_da(sub, b, what, **tol(case))
  check(int(a.notnull().sum()) == int(b.notnull().sum()), lambda: f'{what}: values at labels that were not requested: {a.values}')


def defined_on(s, present):
  """Variables the metric is defined on, or None where a wrapper changes the rule."""
  if s['m'].startswith('WindVector'):
    names = s['a']['n'] if isinstance(s['a']['n'], list) else [s['a']['n']]
    return set(names) if not any(k == 'sub' for k, _ in s['w']) else None
  vs = set(present)
  if s['m'] == 'SEEPS':
    vs = set(s['a']['v'])
    return vs if not any(k == 'sub' for k, _ in s['w']) else None
  for k, a in s['w']:
    if k == 'sub':
      vs &= set(a['v'])
  return vs


@test('P28', cases(), 480, 8000)
def together_equals_alone(case, ctx):
  p, t = data(case)
  alone = {}
  keep = []
  for i, s in enumerate(case['specs']):
    try:
      alone[i] = evaluate(case, {f'm{i}': build(s)}, p, t)
      keep.append(i)
    except Exception:  # not a valid request on its own
      ctx.label('alone_invalid')
  if len(keep) < 2:
    raise Discard()
  metrics = {f'm{i}': build(case['specs'][i]) for i in keep}
  together, nested = evaluate(case, metrics, p, t)
  expected = set()
  for i in keep:
    one, one_nested = alone[i]
    if together is not None:
      expected |= {f'm{i}.{v}' for v in one_nested[f'm{i}']}
      if one is not None:
        check(set(one) == {f'm{i}.{v}' for v in one_nested[f'm{i}']}, lambda: f'names {sorted(one)}')
      for v, x in one_nested[f'm{i}'].items():
        k = f'm{i}.{v}'
        check(k in together, lambda: f'{k} is missing from the joint result')
        same_in_joint(together[k], x, f'{k} in the joint data set vs alone', case)
    check(set(nested[f'm{i}']) == set(one_nested[f'm{i}']), lambda: f'm{i}: variables {sorted(nested[f"m{i}"])} together, {sorted(one_nested[f"m{i}"])} alone')
    for v, x in one_nested[f'm{i}'].items():
      same_da(nested[f'm{i}'][v], x, f'm{i}.{v} together vs alone', **tol(case), coords='all')
    reduces = set(case['reduce'])
    want = defined_on(case['specs'][i], variables(case))
    got = {str(k) for k in one_nested[f'm{i}']}
    # A statistic without one of the averaged dims has no value (documented): then nothing is reported for it.
    if want is not None and got:
      check(got == want, lambda: f'{case["specs"][i]}: values for {sorted(got)}, defined on {sorted(want)}')
  check(together is None or set(together) == expected, lambda: f'joint result has {sorted(set(together) - expected)} in addition')
  vals = [x.values for i in keep for x in alone[i][1][f'm{i}'].values()]
  ctx.label('joint' if together is not None else 'nested_only')
  ctx.label('ens' if case['ens'] else 'det', f'n{len(keep)}', *[case['specs'][i]['m'] for i in keep], *[k for i in keep for k, _ in case['specs'][i]['w']])
  ctx.nt(len(vals) >= 2 and any(v.shape != vals[0].shape or not np.array_equal(v, vals[0], equal_nan=True) for v in vals[1:]))


@st.composite
def pair_cases(draw):
  ens = draw(st.integers(0, 2)) > 0
  pool = sorted(DET) + (sorted(ENS) * 3 if ens else [])
  a = draw(spec(pool))
  b = variant(draw, a)
  if draw(st.booleans()):
    b = variant(draw, b)
  return dict(ens=ens, tens=draw(st.booleans()), two=draw(st.sampled_from([True, True, False])), seed=draw(gen.seeds), specs=[a, b], pos=draw(st.booleans()),
              nan=draw(st.sampled_from([1, 2, 0])), mask=draw(st.booleans()), dataset=draw(st.booleans()), extra=False)


@test('P28', pair_cases(), 5600, 60000)
def equal_names_equal_values(case, ctx):
  """Statistics that are computed once for two metrics (same unique name) are the same statistic."""
  a, b = [build(s) for s in case['specs']]
  sa, sb = [{x.unique_name: x for x in m.statistics.values()} for m in (a, b)]
  for m in (a, b):
    names = [x.unique_name for x in m.statistics.values()]
    check(len(set(names)) == len(names), lambda: f'statistics of one metric share a name: {names}')
    check(names == [x.unique_name for x in m.statistics.values()], 'unique names change between uses')
  shared = set(sa) & set(sb)
  ctx.label('shared' if shared else 'distinct', *[s['m'] for s in case['specs']])
  if case['specs'][0] == case['specs'][1] or not shared:
    ctx.nt(not shared)
    return
  p, t = data(case)
  n = 0
  for k in sorted(shared):
    out = []
    for x in (sa[k], sb[k]):
      try:
        out.append(dict(x.compute(p, t)))
      except Exception:  # not evaluable alone on this data
        out.append(None)
    if None in out:
      ctx.label('invalid')
      continue
    n += 1
    check(set(out[0]) == set(out[1]), lambda: f'{k}: variables {sorted(out[0])} and {sorted(out[1])} for {case["specs"]}')
    for v in out[0]:
      same_da(out[0][v], out[1][v], f'two statistics named {k!r} differ for {v}: {case["specs"]}', **tol(case))
  ctx.nt(n > 0)


class Counting(base.PerVariableStatistic):
  """Counts its computations by unique name."""

  def __init__(self, name, log, scale):
    self._n, self._log, self._s = name, log, scale

  @property
  def unique_name(self):
    return self._n

  def _compute_per_variable(self, predictions, targets):
    self._log.append((self._n, str(predictions.name)))
    return (predictions - targets) * self._s


class Uses(base.PerVariableMetric):
  def __init__(self, names, log, power):
    self._names, self._log, self._p = names, log, power

  @property
  def statistics(self):
    return {f'local{i}': Counting(n, self._log, 1.0 + SCALES.index(n)) for i, n in enumerate(self._names)}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return sum(statistic_values[f'local{i}'] * self._p ** i for i in range(len(self._names)))


SCALES = ['s0', 's1', 's2', 'a_b', 'a b', 'S0']


@st.composite
def counting_cases(draw):
  ms = draw(st.lists(st.lists(st.sampled_from(SCALES), min_size=1, max_size=3, unique=True), min_size=1, max_size=5))
  return dict(ms=ms, powers=[draw(st.sampled_from([2.0, 3.0, -1.0])) for _ in ms], seed=draw(gen.seeds), nv=draw(st.integers(1, 3)),
              dataset=draw(st.booleans()), names=draw(st.permutations(['m.a', 'm', 'm_a', 'A', 'b']))[:len(ms)],
              missing=draw(st.booleans()))


@test('P28', counting_cases(), 480)
def shared_statistics_computed_once(case, ctx):
  r = gen.rng([case['seed']])
  vs = [f'x{i}' for i in range(case['nv'])]
  mk = lambda extra: {v: xr.DataArray(r.normal(size=(3, 2)), dims=['init_time', 'lead_time'], name=v) for v in vs + extra}
  p, t = mk(['only_p'] if case['missing'] else []), mk(['only_t'] if case['missing'] else [])
  if case['dataset']:
    p, t = xr.Dataset(p), xr.Dataset(t)
  log = []
  metrics = {n: Uses(m, log, q) for n, m, q in zip(case['names'], case['ms'], case['powers'])}
  stats = base.compute_unique_statistics_for_all_metrics(metrics, p, t)
  names = {n for m in case['ms'] for n in m}
  check(sorted(log) == sorted((n, v) for n in names for v in vs), lambda: f'computations: {sorted(log)}')
  check(set(stats) == names, lambda: f'statistics {sorted(stats)} expected {sorted(names)}')
  out = aggregation.Aggregator(reduce_dims=['init_time', 'lead_time']).aggregate_statistics(stats).metric_values(metrics)
  check(set(out) == {f'{n}.{v}' for n in metrics for v in vs}, lambda: f'result names {sorted(out)}')
  for n, m, q in zip(case['names'], case['ms'], case['powers']):
    for v in vs:
      d = float(np.mean(p[v].values - t[v].values))
      want = sum(d * (1.0 + SCALES.index(s)) * q ** i for i, s in enumerate(m))
      check(abs(float(out[f'{n}.{v}']) - want) < 1e-9, lambda: f'{n}.{v}: {float(out[f"{n}.{v}"])} expected {want}')
  ctx.nt(len(case['ms']) > 1 and len(names) < sum(len(m) for m in case['ms']))
