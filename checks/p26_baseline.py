"""P26: comparisons against a baseline are differences of the same metrics."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, infgen as ig
from wbxv.cmp import check, fail, same_da, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation, xarray_tree
from weatherbenchX.metrics import categorical, deterministic
from weatherbenchX.statistical_inference import baseline_comparison as bc
from weatherbenchX.statistical_inference import bootstrap, t_test, utils

RULE = ('forecast and baseline per-unit states (2-16 units, 0-2 kept dimensions, 1-2 variables, 1-3 of 22 metrics, unequal weights that may '
        'differ between the two), difference/ratio/skill-score comparisons, a different metric for the baseline, tests and bootstraps, one- '
        'and two-dimensional slicings; non-trivial = forecast and baseline differ and at least three units')
ASSUMPTIONS = ['single-precision tolerances where JAX evaluates the metrics',
               'a resampling method applied to slices is compared under the same random state per slice']


def ratio(a, b):
  return {k: a[k] / b[k] for k in a}


def skill(a, b):
  return {k: 1.0 - a[k] / b[k] for k in a if k in b}


COMPARE = {'difference': (bc.difference, lambda a, b: a - b), 'ratio': (ratio, lambda a, b: a / b), 'skill': (skill, lambda a, b: 1.0 - a / b)}
METHODS = {
    'iid': lambda: (t_test.IID, {}), 'ar2': lambda: (t_test.GeerAR2Corrected, {}), 'ewc': lambda: (t_test.LazarusHACEWC, {}),
    'boot': lambda: (bootstrap.IIDBootstrap, dict(n_replicates=12)), 'block': lambda: (bootstrap.StationaryBootstrap, dict(n_replicates=12, mean_block_length=2.0))}

opts = st.fixed_dictionaries(dict(comparison=st.sampled_from(['difference', 'difference', 'default', 'ratio', 'skill']),
                                  method=st.sampled_from(list(METHODS)), seed=gen.seeds, npseed=st.integers(0, 2**31),
                                  bweights=st.booleans(), null=st.sampled_from([0.0, 0.1, -1.0])))


def setup(case, o):
  if o['method'] == 'ar2' and case['n'] < 5:
    case = dict(case, n=5)
  metrics = ig.make_metrics(case)
  main = ig.make_state(case, metrics)
  bcase = dict(case, weights='random' if o['bweights'] else case['weights'])
  base = ig.make_state(bcase, metrics, extra=1)
  return case, metrics, main, base


def infer(o, metrics, main, base, case, **kw):
  cls, args = METHODS[o['method']]()
  np.random.seed(o['npseed'])
  if o['comparison'] != 'default' and 'comparison' not in kw:
    kw['comparison'] = COMPARE[o['comparison']][0]
  return cls.for_baseline_comparison(metrics=metrics, aggregated_statistics=main, baseline_aggregated_statistics=base,
                                     experimental_unit_dim=case['dim'], **args, **kw)


def plain(cmp, metrics, main, base, dim, bmetrics=None):
  a, b = ig.plain_values(metrics, main, dim), ig.plain_values(bmetrics or metrics, base, dim)
  f = COMPARE['difference' if cmp == 'default' else cmp][1]
  return ig.map2(f, a, b), a, b


def tolerances(cmp, metrics, main, base, dim, bmetrics=None):
  ta, tb = ig.value_tolerance(metrics, main, dim), ig.value_tolerance(bmetrics or metrics, base, dim)
  _, a, b = plain(cmp, metrics, main, base, dim, bmetrics)
  if cmp in ('default', 'difference'):
    return ig.map2(lambda x, y: x + y, ta, tb)
  with np.errstate(all='ignore'):
    return {m: {v: (ta[m][v] + tb[m][v] * np.abs(a[m][v] / b[m][v]).values) / np.abs(b[m][v].values) * 1.1 + 1e-6 * np.abs(a[m][v] / b[m][v]).values + 1e-6 for v in a[m]} for m in a}


def at(x, ref):
  """Values in the layout of ref, by label."""
  for d in ref.dims:
    x = x.sel({d: ref[d].values})
  return np.asarray(x.transpose(*ref.dims).values, float)


@test('P26', st.tuples(ig.states(max_n=16), opts).map(list), quick=420)
def comparison_of_plain_values(args, ctx):
  """Point estimates are comparisons of the metric values; significance is that of the linearized or resampled comparison."""
  case, o = args
  case, metrics, main, base = setup(case, o)
  dim = case['dim']
  T = infer(o, metrics, main, base, case)
  want, a, b = plain(o['comparison'], metrics, main, base, dim)
  tol = tolerances(o['comparison'], metrics, main, base, dim)
  point = T.point_estimates()
  ctx.nt(case['n'] >= 3)
  ctx.label('method=' + o['method'], 'comparison=' + o['comparison'], *['metric=' + m for m in metrics])
  check(set(point) == set(metrics), lambda: f'metrics {set(point)}')
  for m in metrics:
    check(set(point[m]) == set(want[m]), lambda: f'{m}: variables {set(point[m])}')
    for v, w in want[m].items():
      g = at(point[m][v], w)
      check(np.all((np.abs(g - w.values) <= tol[m][v]) | ~np.isfinite(w.values)),
            lambda: f"{o['comparison']} {m}.{v}: {g} expected {w.values} (forecast {a[m][v].values}, baseline {b[m][v].values})")
  if o['method'] in ('boot', 'block'):
    # The same resample of units for forecast and baseline.
    np.random.seed(o['npseed'])
    return
  # Paired: the effect of a unit on the comparison combines its effects on both.
  da, db = ig.tangents(metrics, main, dim), ig.tangents(metrics, base, dim)
  if o['method'] != 'iid':
    return
  se = T.standard_error_estimates()
  n = case['n']
  for m in metrics:
    for v, w in want[m].items():
      with np.errstate(all='ignore'):
        if o['comparison'] in ('default', 'difference'):
          d = da[m][v] - db[m][v]
        else:
          r = a[m][v] / b[m][v]
          d = (da[m][v] - r * db[m][v]) / b[m][v]
        s = np.sqrt((d ** 2).sum(dim, skipna=False) / (n - 1) / n)
      s = s.transpose(*w.dims)
      g = at(se[m][v], w)
      mx = float(np.abs(da[m][v]).max() + np.abs(db[m][v]).max()) / (1 if o['comparison'] in ('default', 'difference') else max(1e-9, float(np.abs(b[m][v]).min())))
      t = (5 * np.max(tol[m][v]) + 1e-4 * mx) / np.sqrt(n) * 2
      if o['comparison'] not in ('default', 'difference') and (np.abs(b[m][v]).values < 1e-2 * 10.0 ** min(0, case['scale'])).any():
        continue
      check(np.all((np.abs(g - s.values) <= t) | ~np.isfinite(s.values)), lambda: f"{m}.{v}: standard error of the comparison {g}, paired samples give {s.values}")


@test('P26', st.tuples(ig.states(max_n=12, nmet=(1, 2)), opts).map(list), quick=260)
def self_comparison_and_swap(args, ctx):
  case, o = args
  o = dict(o, comparison=o['comparison'] if o['comparison'] in ('default', 'difference') else 'difference')
  case, metrics, main, base = setup(case, o)
  dim = case['dim']
  ctx.nt(case['n'] >= 3)
  ctx.label('method=' + o['method'])
  same = infer(o, metrics, main, main, case)
  for m in metrics:
    for v, x in same.point_estimates()[m].items():
      y = x.values
      check(np.all((y == 0) | np.isnan(y)), lambda: f'{m}.{v}: comparing a forecast with itself gives {y}')
      fin = np.isfinite(y)
      s = same.standard_error_estimates()[m][v].transpose(*x.dims).values
      check(np.all((s == 0) | ~fin), lambda: f'{m}.{v}: standard error {s} of comparing a forecast with itself')
      p = same.p_values()[m][v].transpose(*x.dims).values
      check(np.all((p == 1) | ~fin), lambda: f'{m}.{v}: p-value {p} when comparing a forecast with itself')
      sig = same.significance_tests()[m][v].transpose(*x.dims).values
      check(not np.any(sig & fin), f'{m}.{v}: a forecast is significantly different from itself')
  A, B = infer(o, metrics, main, base, case), infer(o, metrics, base, main, case)
  tol = tolerances('difference', metrics, main, base, dim)
  lo, hi = A.confidence_intervals(0.1)
  lo2, hi2 = B.confidence_intervals(0.1)
  for m in metrics:
    for v, x in A.point_estimates()[m].items():
      t = 2 * np.max(tol[m][v])
      f = lambda q: at(q[m][v], x)
      check(np.allclose(f(A.point_estimates()), -f(B.point_estimates()), rtol=1e-5, atol=t, equal_nan=True), f'{m}.{v}: swapping does not flip the sign')
      sa, sb = f(A.standard_error_estimates()), f(B.standard_error_estimates())
      ok = np.isfinite(sa) & np.isfinite(sb)
      if o['method'] == 'ar2':  # The inflation factor may amplify rounding without bound.
        continue
      check(np.allclose(sa[ok], sb[ok], rtol=1e-3, atol=2 * t), lambda: f'{m}.{v}: standard errors {sa} and {sb} of swapped comparisons')
      check(np.allclose(f(lo)[ok], -f(hi2)[ok], rtol=1e-3, atol=20 * t) and np.allclose(f(hi)[ok], -f(lo2)[ok], rtol=1e-3, atol=20 * t),
            lambda: f'{m}.{v}: intervals {f(lo)} {f(hi)} and {f(lo2)} {f(hi2)} of swapped comparisons')


@test('P26', st.tuples(ig.states(max_n=9, nmet=(1, 2)), opts).map(list), quick=200)
def resamples_are_paired(args, ctx):
  """A bootstrap of a comparison resamples forecast and baseline together."""
  case, o = args
  o = dict(o, method='boot' if o['method'] in ('iid', 'boot', 'ar2') else 'block')
  case, metrics, main, base = setup(case, o)
  if case['n'] > 5:
    case = dict(case, n=5)
    case, metrics, main, base = setup(case, o)
  dim = case['dim']
  T = infer(o, metrics, main, base, case)
  from checks import p25_bootstrap as p25
  C = p25.all_resamples('iid', case, None)
  A, B = p25.resample_values(metrics, main, dim, C), p25.resample_values(metrics, base, dim, C)
  f = COMPARE['difference' if o['comparison'] == 'default' else o['comparison']][1]
  ctx.nt(case['n'] >= 3)
  ctx.label('method=' + o['method'], 'comparison=' + o['comparison'])
  common = None
  for m in metrics:
    for v in A[m]:
      with np.errstate(all='ignore'):
        R = f(A[m][v], B[m][v])
      rest = [d for d in R.dims if d != 'resample']
      Y = T.resampled_values[m][v]
      for d in rest:
        Y = Y.sel({d: R[d].values})
      Y = Y.transpose(p25.REP, *rest).values.reshape(Y.sizes[p25.REP], -1)
      av = np.abs(A[m][v].transpose('resample', *rest).values).reshape(len(C), -1)
      R = R.transpose('resample', *rest).values.reshape(len(C), -1)
      for k in range(R.shape[1]):
        sc = np.nanmax(np.abs(R[:, k][np.isfinite(R[:, k])]), initial=0) + (np.nanmax(av[:, k][np.isfinite(av[:, k])], initial=0) if o['comparison'] in ('default', 'difference') else 1.0)
        near = np.abs(Y[:, k][:, None] - R[:, k][None]) <= 1e-9 * sc
        near |= ~np.isfinite(Y[:, k])[:, None] & ~np.isfinite(R[:, k])[None]
        check(near.any(1).all(), lambda: f'{m}.{v}: replicate {Y[~near.any(1), k][:3]} is not the comparison on one common resample')
        common = near if common is None else common & near
  check(common.any(1).all(), 'metrics, variables or indices were resampled differently')


class Spread(deterministic.RMSE):
  pass


@test('P26', st.tuples(ig.states(max_n=9, metrics=['mean']), opts, st.sampled_from(['other', 'subset', 'names'])).map(list), quick=160)
def different_baseline_metric(args, ctx):
  """The baseline may use other metrics under the same keys; only keys present in both are compared."""
  case, o, how = args
  o = dict(o, method='iid')
  if o['comparison'] == 'skill' or o['comparison'] == 'ratio':
    o = dict(o, comparison='difference')
  ctx.nt(case['n'] >= 3)
  ctx.label('how=' + how)
  k = ig.CATALOGUE
  if how == 'other':
    ms, bs = {'e': k['mae'](), 'q': k['ratio']()}, {'e': k['rmse'](), 'q': k['corr']()}
  elif how == 'subset':
    ms, bs = {'e': k['mae'](), 'q': k['ratio'](), 'z': k['mse']()}, {'z': k['mse'](), 'e': k['mae'](), 'other': k['bias']()}
  else:  # Local statistic names that look like the prefixes.
    ms = {'e': ig.Func(['main_a', 'baseline_a', 'a'], lambda p, q, r: p - 2.0 * q + 0.25 * r)}
    bs = {'e': ig.Func(['baseline_a', 'main_a'], lambda p, q: 3.0 * p - q)}
  main = ig.make_state(case, ms)
  base = ig.make_state(case, bs, extra=1)
  T = infer(o, ms, main, base, case, baseline_metrics=bs)
  point = T.point_estimates()
  check(set(point) == set(ms) & set(bs), lambda: f'compared metrics {set(point)}')
  both = {m: ms[m] for m in point}, {m: bs[m] for m in point}
  a, b = ig.plain_values(both[0], main, case['dim']), ig.plain_values(both[1], base, case['dim'])
  ta, tb = ig.value_tolerance(both[0], main, case['dim']), ig.value_tolerance(both[1], base, case['dim'])
  for m in point:
    for v in a[m]:
      w = a[m][v] - b[m][v]
      g = at(point[m][v], w)
      check(np.all(np.abs(g - w.values) <= ta[m][v] + tb[m][v]), lambda: f'{m}.{v}: {g} expected {w.values}')


def state_coord(state, d):
  return next(iter(next(iter(state.sum_weights.values())).values()))[d].values


@test('P26', st.tuples(ig.states(max_n=9, nmet=(1, 2), metrics=['mean', 'rmse', 'ratio', 'csi', 'two']), st.fixed_dictionaries(dict(
    method=st.sampled_from(['iid', 'boot', 'plain']), seed=gen.seeds, npseed=st.integers(0, 2**31), ndims=st.integers(1, 2), scalar=st.booleans(),
    keep=st.booleans(), drop_coord=st.booleans()))).map(list), quick=220)
def slices_are_independent(args, ctx):
  """apply_to_slices(f) is f on each slice, put together by label."""
  case, o = args
  if not case['kept']:
    case = dict(case, kept=[['lead_time', 3]])
  dims = [d for d, _ in case['kept']][:o['ndims']]
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  if o['drop_coord']:
    state = state.map(lambda x: x.drop_vars(dims[0]))
  S, W = state.sum_weighted_statistics, state.sum_weights
  unit = case['dim']
  calls = []
  size0 = dict(case['kept'])[dims[0]]
  # Arguments (with only some) of the dimensions.
  whole = xr.DataArray([3.0, 1.0, 2.0], dims=['other'])
  first = xr.DataArray(10.0 * np.arange(size0), dims=[dims[0]], coords={} if o['drop_coord'] else {dims[0]: state_coord(state, dims[0])})
  extra = [{'whole': whole, 'first': first}] if o['keep'] else []
  seen = []

  def f(s, w, e=None):
    st_ = aggregation.AggregationState(s, w)
    if e is not None:
      check(e['whole'].identical(whole), 'an argument without the dimensions is passed as it is')
      check(dict(e['first'].sizes) == {dims[0]: 1}, 'an argument with one of the dimensions is sliced along it')
      seen.append(float(e['first'].values[0]))
    calls.append(1)
    some = next(iter(next(iter(s.values())).values()))
    check(all(some.sizes[d] == 1 for d in dims), 'slices have size one')
    if o['method'] == 'plain':
      return ig.plain_values(metrics, st_, unit)
    if o['method'] == 'boot':
      np.random.seed(o['npseed'])
      return bootstrap.IIDBootstrap(metrics, st_, unit, 8).confidence_intervals(0.2)[0]
    return t_test.IID(metrics, st_, unit).standard_error_estimates()

  got = utils.apply_to_slices(f, S, W, *extra, dim=dims[0] if len(dims) == 1 and o['scalar'] else dims)
  sizes = dict((d, s) for d, s in case['kept'])
  n = int(np.prod([sizes[d] for d in dims]))
  check(len(calls) == n, lambda: f'{len(calls)} calls for {n} slices')
  if extra:
    check(sorted(seen) == sorted(10.0 * i for i in range(size0) for _ in range(n // size0)), lambda: f'slices of an argument: {seen}')
  ctx.nt(n > 1)
  ctx.label(f'slices={n}', 'method=' + o['method'])
  if o['drop_coord']:
    state = state.map(lambda x: x.assign_coords({dims[0]: np.arange(sizes[dims[0]])}))
  for idx in np.ndindex(*[sizes[d] for d in dims]):
    sel = {d: [i] for d, i in zip(dims, idx)}
    one = state.map(lambda x: x.isel(sel))
    want = f(one.sum_weighted_statistics, one.sum_weights)
    for m in metrics:
      check(set(got[m]) == set(want[m]), 'variables')
      for v, w in want[m].items():
        g = got[m][v].sel({d: w[d].values for d in dims})
        check(set(g.dims) == set(w.dims), lambda: f'dims {g.dims} {w.dims}')
        for d in w.dims:
          if d not in dims:
            g = g.sel({d: w[d].values})
        check(np.array_equal(g.transpose(*w.dims).values, w.values, equal_nan=True), lambda: f'{m}.{v} slice {idx}: {g.values} expected {w.values}')
        for d in dims:
          check(got[m][v].sizes[d] == sizes[d], f'{m}.{v}: size along {d}')
  expect_raises(lambda: utils.apply_to_slices(f, S, W, dim='nosuch'), ValueError, 'an unknown dimension')


@test('P26', st.tuples(ig.states(min_n=3, max_n=9, metrics=['mean', 'ratio'], nmet=(1, 2)), opts, st.sampled_from(['shift', 'shorter', 'shuffle'])).map(list), quick=90)
def unpaired_samples_rejected(args, ctx):
  """A paired comparison of different units is refused, never silently computed."""
  case, o, how = args
  case, metrics, main, base = setup(case, o)
  dim = case['dim']
  ctx.nt()
  ctx.label('how=' + how, 'method=' + o['method'])
  if how == 'shift':
    c = base.sum_weights[next(iter(base.sum_weights))][case['vars'][0]][dim].values
    base = base.map(lambda x: x.assign_coords({dim: np.append(c[1:], c[-1] + (c[1] - c[0]))}))
  elif how == 'shorter':
    base = base.map(lambda x: x.isel({dim: slice(0, -1)}))
  else:
    base = base.map(lambda x: x.isel({dim: slice(None, None, -1)}))
  expect_raises(lambda: infer(o, metrics, main, base, case), ValueError, f'comparison of unaligned samples ({how})')
