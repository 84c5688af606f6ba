"""P27: per-sample linearization of metrics is the true first-order effect."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, infgen as ig
from wbxv.cmp import check, fail, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.statistical_inference import autodiff

RULE = ('per-unit sums and weights of 2-16 units, 0-2 kept dimensions, 1-2 variables, 1-3 metrics of 22 (averages, roots, ratios, '
        'contingency scores, correlations, cross-variable), equal, random, per-index and partly zero weights, scales 1e-3 to 1e3; '
        'non-trivial = more than two units and a metric that is not a plain average, or unequal weights')
ASSUMPTIONS = ['JAX evaluates in single precision: values are compared to 1e-5 of the value and 2e-4 of the largest effect',
               'the first-order effect is measured by extrapolated central differences in double precision']


def linearize(metrics, state, dim):
  return autodiff.per_unit_values_linearized_around_mean_statistics(metrics, state, dim)


def nontrivial(case, ctx):
  ctx.nt(case['n'] > 2 and (any(k not in ('mean', 'mse', 'mae', 'bias') for k in case['metrics']) or case['weights'] not in ('ones', 'const')))
  ctx.label('weights=' + case['weights'], f"kept={len(case['kept'])}", *['metric=' + k for k in case['metrics']])


def close(a, b, vtol, what, rel=2e-4):
  """Tangents a, expected b (xarray), tolerance of the metric values."""
  check(set(a.dims) == set(b.dims), lambda: f'{what}: dims {a.dims} vs {b.dims}')
  b = b.transpose(*a.dims)
  for d in b.dims:
    if d in b.coords:
      check(d in a.coords and np.array_equal(a[d].values, b[d].values), lambda: f'{what}: coordinate {d}')
  x, y = np.asarray(a.values, float), np.asarray(b.values, float)
  check(np.array_equal(np.isnan(x), np.isnan(y)), lambda: f'{what}: missing values\n{x}\nexpected\n{y}')
  tol = rel * np.nanmax(np.abs(y), initial=0) + 5 * np.nanmax(vtol, initial=0) + 1e-12
  bad = np.abs(x - y) > tol
  check(not bad.any(), lambda: f'{what}: got\n{x}\nexpected\n{y}\n(tolerance {tol})')


@test('P27', ig.states(), quick=420)
def equals_first_order_effect(case, ctx):
  nontrivial(case, ctx)
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  dim = case['dim']
  value, tang = linearize(metrics, state, dim)
  tol = ig.value_tolerance(metrics, state, dim)
  ref, dref = ig.plain_values(metrics, state, dim), ig.tangents(metrics, state, dim)
  check(set(value) == set(metrics) == set(tang), lambda: f'metrics {set(value)}')
  for m in metrics:
    check(set(value[m]) == set(ref[m]) == set(tang[m]), lambda: f'{m}: variables {set(value[m])} vs {set(ref[m])}')
    for v in ref[m]:
      r = ref[m][v]
      g = value[m][v]
      check(set(g.dims) == set(r.dims), f'{m}.{v}: dims')
      g = g.transpose(*r.dims)
      err = np.abs(g.values - r.values)
      check(np.all(err <= tol[m][v]), lambda: f'{m}.{v}: value {g.values} expected {r.values}')
      close(tang[m][v], dref[m][v], tol[m][v], f'{m}.{v}')
      d = tang[m][v]
      mean = np.abs(d.mean(dim).values)
      check(np.all(mean <= 1e-5 * np.abs(d.values).max() + 3 * tol[m][v].max()), lambda: f'{m}.{v}: effects average to {mean}, not zero')


@test('P27', ig.states(metrics=['mean', 'mse', 'mae', 'bias']), quick=240)
def plain_averages_give_centred_statistics(case, ctx):
  """d_i = w_i / mean(w) * (x_i - weighted mean): the centred statistic when weights are equal."""
  ctx.nt(case['n'] > 2)
  ctx.label('weights=' + case['weights'])
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  dim = case['dim']
  _, tang = linearize(metrics, state, dim)
  for m, metric in metrics.items():
    (stat,) = metric.statistics.values()
    for v in case['vars']:
      S, W = state.sum_weighted_statistics[stat.unique_name][v], state.sum_weights[stat.unique_name][v]
      mean = ig.total(S, dim) / ig.total(W, dim)
      want = (S - mean * W) / (ig.total(W, dim) / case['n'])
      close(tang[m][v], want, 2e-6 * np.abs(mean.values), f'{m}.{v}')


@test('P27', ig.rev_states(max_n=9), quick=48)
def relative_economic_value_at_chosen_thresholds(case, ctx):
  """REV picks a threshold per cost/loss ratio (and kept index, and variable): its effects are those at the picked thresholds."""
  ctx.nt(case['n'] > 2 and case['thresholds'] > 1)
  ctx.label('optimal=' + case['optimal'], f"optimum per kept index={case['optkept'] and bool(case['kept'])}", f"kept={len(case['kept'])}")
  metrics = ig.rev_metrics(case)
  state = ig.rev_state(case, metrics)
  dim = case['dim']
  value, tang = linearize(metrics, state, dim)
  tol = ig.value_tolerance(metrics, state, dim)
  ref, dref = ig.plain_values(metrics, state, dim), ig.tangents(metrics, state, dim)
  for m in metrics:
    check(set(value[m]) == set(ref[m]) == set(tang[m]), lambda: f'{m}: variables {set(value[m])} vs {set(ref[m])}')
    for v in ref[m]:
      r, g = ref[m][v], value[m][v]
      check(set(g.dims) == set(r.dims), lambda: f'{m}.{v}: dims {g.dims} vs {r.dims}')
      g = g.transpose(*r.dims)
      check(np.all(np.abs(g.values - r.values) <= tol[m][v]), lambda: f'{m}.{v}: value {g.values} expected {r.values}')
      close(tang[m][v], dref[m][v], tol[m][v], f'{m}.{v}')


@test('P27', st.tuples(ig.states(max_n=8), gen.seeds).map(list), quick=220)
def local_to_its_index(args, ctx):
  """Other kept indices, other metrics and missing values elsewhere do not influence a result."""
  case, seed = args
  ctx.nt(bool(case['kept']) and case['n'] > 2)
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  dim = case['dim']
  if not case['kept']:
    return
  r = gen.rng(seed)
  d0, size = case['kept'][0]
  k = int(r.integers(0, size))
  unit = int(r.integers(0, case['n']))
  tol = ig.value_tolerance(metrics, state, dim)
  full_v, full_t = linearize(metrics, state, dim)
  one = metrics if len(metrics) == 1 else {m: metrics[m] for m in list(metrics)[:1]}
  sub = state.map(lambda x: x.isel({d0: [k]}))
  v1, t1 = linearize(one, sub, dim)
  holes = aggregation.AggregationState(
      {s: {v: x.where(~((x[d0] != x[d0][k]) & (x[dim] == x[dim][unit]))) for v, x in d.items()} for s, d in state.sum_weighted_statistics.items()},
      state.sum_weights)
  v2, t2 = linearize(one, holes, dim)
  for m in one:
    for v in full_t[m]:
      a = full_t[m][v].isel({d0: [k]})
      close(t1[m][v], a, tol[m][v], f'{m}.{v} on one index', rel=1e-5)
      close(t2[m][v].isel({d0: [k]}), a, tol[m][v], f'{m}.{v} with missing values elsewhere', rel=1e-5)
      others = t2[m][v].isel({d0: [i for i in range(size) if i != k]})
      check(bool(np.isnan(others.values).all()), f'{m}.{v}: a missing statistic must make its own effects missing')


@test('P27', ig.states(max_n=6, maxkept=1), quick=60)
def inconsistent_units_rejected(case, ctx):
  ctx.nt()
  metrics = {'ratio': ig.CATALOGUE['ratio']()}
  case = dict(case, metrics=['ratio'])
  state = ig.make_state(case, metrics)
  dim = case['dim']
  S = {k: dict(d) for k, d in state.sum_weighted_statistics.items()}
  v = case['vars'][0]
  x = S['b'][v]
  mk = lambda y: aggregation.AggregationState(dict(S, b=dict(S['b'], **{v: y})), state.sum_weights)
  expect_raises(lambda: linearize(metrics, mk(x.isel({dim: slice(0, -1)})), dim), ValueError, 'statistics with different numbers of units')
  c = x[dim].values.copy()
  c[-1] = c[-1] + (c[-1] - c[0])
  expect_raises(lambda: linearize(metrics, mk(x.assign_coords({dim: c})), dim), ValueError, 'statistics with different units')
  expect_raises(lambda: linearize(metrics, mk(x.drop_vars(dim)), dim), ValueError, 'statistics without unit coordinate')
