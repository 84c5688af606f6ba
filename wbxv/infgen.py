"""Per-unit aggregation states, metrics and reference computations for the statistical-inference checks.

Reference values never use the code under test's own reductions: sums over units are numpy sums, and a metric is
evaluated through its `values_from_mean_statistics` only (decided by P12-P17), on float64 means.
"""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical, deterministic, probabilistic, spatial


class Stat(base.Statistic):
  """A statistic that only has a name: states are built directly."""

  def __init__(self, name):
    self._n = name

  @property
  def unique_name(self):
    return self._n

  def compute(self, predictions, targets):
    raise NotImplementedError


class Func(base.PerVariableMetric):
  """A metric that is a stated function of several statistics."""

  def __init__(self, names, f):
    self._names, self._f = names, f

  @property
  def statistics(self):
    return {n: Stat(n) for n in self._names}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return self._f(*[statistic_values[n] for n in self._names])


class CrossVariable(base.Metric):
  """One output variable from two input variables (as the wind-vector metrics)."""

  def __init__(self, f):
    self._f = f

  @property
  def statistics(self):
    return {'local': Stat('cv')}

  def values_from_mean_statistics(self, statistic_values):
    s = statistic_values['local']
    ks = sorted(s)
    return {'combined': self._f(s[ks[0]], s[ks[-1]])}


class TwoOutputs(base.Metric):
  """Two output variables, neither of them an input variable."""

  @property
  def statistics(self):
    return {'local': Stat('cv')}

  def values_from_mean_statistics(self, statistic_values):
    s = statistic_values['local']
    ks = sorted(s)
    u, v = s[ks[0]], s[ks[-1]]
    return {'speed': (u * u + v * v) ** 0.5, 'share': u / (u + 2.0 * v)}


# name -> (factory, kind of statistics); linear metrics are listed in LINEAR.
CATALOGUE = {
    'mean': lambda: Stat('m0'),
    'mse': lambda: deterministic.MSE() if hasattr(deterministic, 'MSE') else deterministic.SquaredError(),
    'mae': lambda: deterministic.AbsoluteError(),
    'bias': lambda: deterministic.Error(),
    'lin2': lambda: Func(['a', 'b'], lambda a, b: 2.0 * a - 0.5 * b),
    'rmse': lambda: deterministic.RMSE(),
    'ratio': lambda: Func(['a', 'b'], lambda a, b: a / b),
    'corr': lambda: Func(['xy', 'xx', 'yy'], lambda xy, xx, yy: xy / (xx * yy) ** 0.5),
    'product': lambda: Func(['a', 'c'], lambda a, c: a * c * c),
    'cross': lambda: CrossVariable(lambda u, v: (u * u + v * v) ** 0.5),
    'two': TwoOutputs,
    'csi': lambda: categorical.CSI(),
    'f1': lambda: categorical.F1Score(),
    'fbi': lambda: categorical.FrequencyBias(),
    'precision': lambda: categorical.Precision(),
    'ets': lambda: categorical.ETS(),
    'hss': lambda: categorical.HSS(),
    'crps': lambda: probabilistic.CRPSEnsemble(),
    'uermse': lambda: probabilistic.UnbiasedEnsembleMeanRMSE(),
    'ssr': lambda: probabilistic.UnbiasedSpreadSkillRatio(),
    'rootvar': lambda: probabilistic.EnsembleRootMeanVariance(),
    'fss': lambda: spatial.FSS(neighborhood_size_in_pixels=[1]),
}
LINEAR = ['mean', 'mse', 'mae', 'bias', 'lin2', 'crps']
NONLINEAR = [k for k in CATALOGUE if k not in LINEAR]
CONTINGENCY = ('TruePositives', 'TrueNegatives', 'FalsePositives', 'FalseNegatives')


# Few distinct sizes: JAX compiles every operation once per shape.
NS = [2, 3, 5, 9, 16, 24, 40]


@st.composite
def states(draw, min_n=2, max_n=16, metrics=None, nmet=(1, 3), coords=('datetime', 'int', 'float', 'timedelta'),
           weights=('ones', 'const', 'random', 'perkept', 'zerosome', 'bystat'), maxkept=2, scales=(0, 0, -3, 3), kinds=('ar', 'ar', 'iid')):
  pool = list(metrics or CATALOGUE)
  ms = draw(st.lists(st.sampled_from(pool), min_size=nmet[0], max_size=nmet[1], unique=True))
  kept = draw(st.permutations(['lead_time', 'region']))[:draw(st.integers(0, maxkept))]
  return dict(n=draw(st.sampled_from([k for k in NS if min_n <= k <= max_n])), kept=[[d, draw(st.sampled_from([2, 1, 3] if i == 0 else [2]))] for i, d in enumerate(kept)], metrics=ms,
              vars=draw(st.sampled_from([['x'], ['x', 'y'], ['y']])), weights=draw(st.sampled_from(list(weights))),
              coord=draw(st.sampled_from(list(coords))), pos=draw(st.integers(0, 2)), phi=draw(st.sampled_from([0.0, 0.5, 0.9, -0.5])),
              scale=draw(st.sampled_from(list(scales))), seed=draw(gen.seeds), kind=draw(st.sampled_from(list(kinds))),
              dim=draw(st.sampled_from(['init_time', 'unit'])))


def unit_coord(case):
  n = case['n']
  k = case['coord']
  if k == 'datetime':
    return gen.times(n, step_h=12)
  if k == 'int':
    return 3 + 2 * np.arange(n)
  if k == 'float':
    return 0.25 * np.arange(n) - 1.0
  if k == 'timedelta':
    return gen.h2td(6 * np.arange(n))
  if k == 'str':
    return np.array([f'u{i:02d}' for i in range(n)])
  raise AssertionError(k)


def kept_coord(d, size):
  if d == 'lead_time':
    return gen.h2td([6, 12, 24][:size])
  return np.array(['global', 'tropics', 'nh'][:size])


def make_metrics(case):
  return {k: CATALOGUE[k]() for k in case['metrics']}


def series(r, n, shape, case):
  x = r.normal(size=(n,) + shape)
  if case['kind'] == 'ar':
    for i in range(1, n):
      x[i] += case['phi'] * x[i - 1]
  return x


def salt(name):
  return sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 100003


def make_state(case, metrics=None, extra=0):
  """AggregationState with a unit dimension; identical statistics are shared between metrics."""
  metrics = metrics if metrics is not None else make_metrics(case)
  n, dim = case['n'], case['dim']
  kd = [d for d, _ in case['kept']]
  shape = tuple(s for _, s in case['kept'])
  coords = {d: kept_coord(d, s) for d, s in case['kept']}
  coords[dim] = unit_coord(case)
  dims = list(kd)
  dims.insert(min(case['pos'], len(dims)), dim)
  S, W = {}, {}
  for m in metrics.values():
    for stat in m.statistics.values():
      name = stat.unique_name
      if name in S:
        continue
      S[name], W[name] = {}, {}
      for v in case['vars']:
        r = gen.rng([case['seed'], salt(name), salt(v), extra])
        # Statistics are positive so that roots, ratios and tables are well conditioned.
        x = 2.0 + 0.5 * np.tanh(series(r, n, shape, case)) + 0.1 * r.uniform(size=(n,) + shape)
        if name == 'xy':
          x = x - 1.0
        if name == 'Error' or name == 'm0':
          x = x - 1.9
        x = x * 10.0 ** case['scale'] if not any(c in name for c in CONTINGENCY) else x
        # Weights are a function of unit (and kept index), common to all statistics as in an aggregation; 'bystat' has equal weights
        # for some statistics and variables and unequal ones for others (as with masks or missing values of their own).
        k = case['weights']
        rw = gen.rng([case['seed'], 77, salt(v)] + ([salt(name)] if k == 'bystat' else []))
        if k == 'bystat':
          k = 'ones' if rw.uniform() < 0.5 else 'random'
        if k == 'ones':
          w = np.ones((n,) + shape)
        elif k == 'const':
          w = np.full((n,) + shape, 3.5)
        elif k == 'perkept':
          w = np.broadcast_to(0.5 + rw.uniform(size=shape), (n,) + shape).copy()
        else:
          w = 0.25 + rw.uniform(size=(n,) + shape)
          if k == 'zerosome' and n > 3:
            w[rw.integers(0, n)] = 0.0
        order = [dim] + kd
        mk = lambda a: xr.DataArray(a, dims=order, coords={d: coords[d] for d in order}).transpose(*dims)
        S[name][v], W[name][v] = mk(x * w), mk(w)
  return aggregation.AggregationState(S, W)


def map2(f, a, b):
  return {k: {v: f(a[k][v], b[k][v]) for v in a[k]} for k in a}


def total(x, dim):
  """Sum over units, NaN-propagating, by numpy."""
  ax = x.dims.index(dim)
  rest = [d for d in x.dims if d != dim]
  return xr.DataArray(np.sum(x.values, axis=ax), dims=rest, coords={d: x[d] for d in rest if d in x.coords})


def metric_values(metrics, S, W):
  """Metrics of summed statistics S and weights W (nested dicts)."""
  with np.errstate(all='ignore'):
    means = map2(lambda s, w: s / w, S, W)
    return {name: dict(m.values_from_mean_statistics({k: means[s.unique_name] for k, s in m.statistics.items()}))
            for name, m in metrics.items()}


def plain_values(metrics, state, dim):
  S = {k: {v: total(x, dim) for v, x in d.items()} for k, d in state.sum_weighted_statistics.items()}
  W = {k: {v: total(x, dim) for v, x in d.items()} for k, d in state.sum_weights.items()}
  return metric_values(metrics, S, W)


def tangents(metrics, state, dim, h=3e-4):
  """N * d/de of the metric when unit i's sums are scaled by (1 + e), by Richardson-extrapolated central differences."""
  n = next(iter(next(iter(state.sum_weights.values())).values())).sizes[dim]

  def shifted(e):
    S = {k: {v: total(x, dim) + e * x for v, x in d.items()} for k, d in state.sum_weighted_statistics.items()}
    W = {k: {v: total(x, dim) + e * x for v, x in d.items()} for k, d in state.sum_weights.items()}
    return metric_values(metrics, S, W)
  d1 = map2(lambda p, q: (p - q) / (2 * h), shifted(h), shifted(-h))
  d2 = map2(lambda p, q: (p - q) / (4 * h), shifted(2 * h), shifted(-2 * h))
  return map2(lambda a, b: n * (4 * a - b) / 3, d1, d2)


def value_tolerance(metrics, state, dim, eps=1e-6):
  """Spread of the metric values when every sum is perturbed by a relative eps: nested dict of arrays."""
  # Perturb the sums over units, as rounding does.
  state = aggregation.AggregationState(*[{s: {v: total(x, dim) for v, x in e.items()} for s, e in d.items()}
                                         for d in (state.sum_weighted_statistics, state.sum_weights)])
  base_ = metric_values(metrics, state.sum_weighted_statistics, state.sum_weights)
  out = map2(lambda a, b: np.zeros(a.shape), base_, base_)
  for k in range(6):
    r = gen.rng([k, 5])
    jig = lambda d: {s: {v: x * (1 + eps * r.choice([-1.0, 1.0], size=x.shape)) for v, x in e.items()} for s, e in d.items()}
    p = metric_values(metrics, jig(state.sum_weighted_statistics), jig(state.sum_weights))
    out = map2(lambda o, q: np.maximum(o, q), out, map2(lambda a, b: np.abs(a.values - b.transpose(*a.dims).values), base_, p))
  return map2(lambda o, b: 3 * o + 3 * eps * np.abs(b.values) + 1e-12, out, base_)


@st.composite
def rev_states(draw, **kw):
  """Confusion-matrix states of RelativeEconomicValue: a threshold dimension, base rates away from the cost/loss ratios."""
  case = draw(states(metrics=['mean'], nmet=(1, 1), weights=('ones', 'random', 'perkept'), scales=(0,), **kw))
  nt = draw(st.sampled_from([2, 1, 3]))
  return dict(case, thresholds=nt, thpos=draw(st.integers(0, 3)), optimal=draw(st.sampled_from(['none', 'shared', 'shared', 'byvar', 'nearest'])),
              optkept=draw(st.booleans()), optorder=draw(st.booleans()), ratios=draw(st.sampled_from([1, 2, 3])), other=draw(st.booleans()))


def rev_metrics(case):
  nt = case['thresholds']
  th = ((np.arange(nt) + 0.5) / nt)
  ratios = np.array([0.05, 0.2, 0.9])[:case['ratios']]
  opt = None
  if case['optimal'] != 'none':
    r = gen.rng([case['seed'], 11])

    def one():
      dims, coords = ['cost_loss_ratio'], {'cost_loss_ratio': ratios}
      if case['optkept'] and case['kept']:
        d, s = case['kept'][0]
        dims, coords[d] = ([d] + dims if case['optorder'] else dims + [d]), kept_coord(d, s)
      v = r.choice(np.concatenate([[0.0], th, [1.0]]), size=[len(coords[d]) for d in dims])
      if case['optimal'] == 'nearest':
        v = np.clip(v + r.uniform(-0.1, 0.1, size=v.shape) / nt, 0, 1)
      return xr.DataArray(v, dims=dims, coords=coords)
    opt = {v: one() for v in case['vars']} if case['optimal'] == 'byvar' else one()
  ms = {'rev': probabilistic.RelativeEconomicValue(
      probability_thresholds=th, cost_loss_ratios=ratios, optimal_thresholds=opt,
      optimal_thresholds_select_nearest=case['optimal'] == 'nearest', statistic_suffix='s')}
  if case['other']:
    ms['mean'] = CATALOGUE['mean']()
  return ms


def rev_state(case, metrics):
  """Per-unit sums whose units all have true tables: tp + fn is the base rate at every threshold, everything sums to the weight."""
  n, dim, nt = case['n'], case['dim'], case['thresholds']
  kd = [d for d, _ in case['kept']]
  shape = tuple(s for _, s in case['kept'])
  order = [dim] + kd
  coords = {d: kept_coord(d, s) for d, s in case['kept']}
  coords[dim] = unit_coord(case)
  coords['threshold'] = (np.arange(nt) + 0.5) / nt
  S, W = {}, {}
  for m in metrics.values():
    for key, stat in m.statistics.items():
      S[stat.unique_name], W[stat.unique_name] = {}, {}
      for v in case['vars']:
        r = gen.rng([case['seed'], salt(v)])
        base_rate = 0.35 + 0.3 * r.uniform(size=(n,) + shape)
        hit, false = [np.sort(r.uniform(0.1, 0.9, size=(n,) + shape + (nt,)), axis=-1)[..., ::-1] for _ in range(2)]
        b = base_rate[..., None]
        table = {'TruePositives': b * hit, 'FalseNegatives': b * (1 - hit), 'FalsePositives': (1 - b) * false, 'TrueNegatives': (1 - b) * (1 - false)}
        k = case['weights']
        w = {'ones': np.ones((n,) + shape), 'random': 0.25 + r.uniform(size=(n,) + shape),
             'perkept': np.broadcast_to(0.5 + r.uniform(size=shape), (n,) + shape)}[k]
        w = xr.DataArray(w, dims=order, coords={d: coords[d] for d in order})
        if key in table:
          x = xr.DataArray(table[key], dims=order + ['threshold'], coords=coords)
          dims = list(order)
          dims.insert(min(case['thpos'], len(dims)), 'threshold')
          x = x.transpose(*dims)
        else:
          x = xr.DataArray(r.normal(size=(n,) + shape), dims=order, coords={d: coords[d] for d in order})
        S[stat.unique_name][v], W[stat.unique_name][v] = (x * w).transpose(*x.dims), w
  return aggregation.AggregationState(S, W)
