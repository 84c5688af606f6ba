"""P25: bootstrap results are exact functions of their resamples."""
import itertools

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, infgen as ig
from wbxv.cmp import check, fail, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.statistical_inference import bootstrap

RULE = ('per-unit sums and weights of 2-40 units, 0-2 kept dimensions, 1-2 variables, 1-3 of 22 metrics, unequal and zero weights, missing '
        'values, cluster layouts, block lengths, seeds, levels, null values; for few units every replicate is looked up among all '
        'possible resamples; non-trivial = at least three units and five replicates, with units that differ')
ASSUMPTIONS = ['the random source is numpy\'s global generator, as for any caller who sets numpy.random.seed',
               'distributional checks use six-sigma limits',
               'a replicate that could not be computed (no weight, or missing data among the units) may be missing']
REP = 'bootstrap_replicate'


def build(kind, metrics, state, case, reps, L=None, coord=None, **kw):
  if kind == 'iid':
    return bootstrap.IIDBootstrap(metrics, state, case['dim'], reps)
  if kind == 'cluster':
    return bootstrap.ClusterBootstrap(metrics, state, coord or case['dim'], reps)
  return bootstrap.StationaryBootstrap(metrics, state, case['dim'], reps, mean_block_length=L, **kw)


def compositions(total, parts):
  """All count vectors of `parts` nonnegative integers with the given total."""
  if parts == 1:
    yield (total,)
    return
  for i in range(total + 1):
    for rest in compositions(total - i, parts - 1):
      yield (i,) + rest


def clusters_of(case, r):
  """Cluster label of every unit (n of them), not sorted, possibly one cluster."""
  n = case['n']
  k = max(1, int(r.integers(1, min(n, 4) + 1)))
  lab = np.concatenate([np.arange(k), r.integers(0, k, size=n - k)])
  return r.permutation(lab)


def all_resamples(kind, case, lab):
  n = case['n']
  if kind == 'cluster':
    k = len(set(lab))
    return np.array([[c[i] for i in lab] for c in compositions(k, k)])
  return np.array(list(compositions(n, n)))


def resample_values(metrics, state, dim, C):
  """Metric values of every count vector in C: nested dict with dim 'resample'."""
  def red(d):
    out = {}
    for s, e in d.items():
      out[s] = {}
      for v, x in e.items():
        a = np.moveaxis(x.values, x.dims.index(dim), 0)
        y = np.tensordot(C, np.nan_to_num(a), 1)
        y = np.where(np.tensordot(C, np.isnan(a).astype(float), 1) > 0, np.nan, y)
        out[s][v] = xr.DataArray(y, dims=['resample'] + [q for q in x.dims if q != dim], coords={q: x[q] for q in x.dims if q != dim and q in x.coords})
    return out
  return ig.metric_values(metrics, red(state.sum_weighted_statistics), red(state.sum_weights))


opts = st.fixed_dictionaries(dict(kind=st.sampled_from(['iid', 'cluster', 'stationary']), reps=st.sampled_from([5, 20, 40]), L=st.sampled_from([1, 1.5, 3, 10]),
                                  npseed=st.integers(0, 2**31), seed=gen.seeds, labels=st.sampled_from(['int', 'str', 'time']),
                                  missing=st.sampled_from([False, False, True])))


def with_clusters(state, case, lab, kind):
  c = {'int': lambda: 7 * np.asarray(lab) - 3, 'str': lambda: np.array(['c%d' % i for i in lab]),
       'time': lambda: gen.times(9, step_h=24)[np.asarray(lab)]}[kind]()
  return state.map(lambda x: x.assign_coords(cluster=(case['dim'], c)))


@test('P25', st.tuples(ig.states(max_n=5, nmet=(1, 2)), opts).map(list), quick=420)
def replicates_are_resamples(args, ctx):
  """Every replicate of every metric is the metric of some resample of whole units; point estimates are the plain values."""
  case, o = args
  dim = case['dim']
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  r = gen.rng(o['seed'])
  hole = int(r.integers(0, case['n'])) if o['missing'] else None
  if hole is not None:
    state = aggregation.AggregationState(
        {s: {v: x.where(x[dim] != x[dim][hole]) for v, x in d.items()} for s, d in state.sum_weighted_statistics.items()}, state.sum_weights)
  lab = clusters_of(case, r) if o['kind'] == 'cluster' else np.arange(case['n'])
  st_in = with_clusters(state, case, lab, o['labels']) if o['kind'] == 'cluster' else state
  np.random.seed(o['npseed'])
  B = build(o['kind'], metrics, st_in, case, o['reps'], o['L'], 'cluster')
  plain = ig.plain_values(metrics, state, dim)
  tol = ig.value_tolerance(metrics, state, dim) if hole is None else None
  C = all_resamples(o['kind'], case, lab)
  ref = resample_values(metrics, state, dim, C)
  ctx.nt(case['n'] >= 3 and hole is None)
  ctx.label('kind=' + o['kind'], f"n={case['n']}", 'weights=' + case['weights'], f"missing={hole is not None}")
  point, res = B.point_estimates(), B.resampled_values
  common = {}
  for m in metrics:
    check(set(point[m]) == set(res[m]) == set(plain[m]), lambda: f'{m}: variables')
    for v, p in plain[m].items():
      w = f"{o['kind']} {m}.{v}"
      x, y = point[m][v], res[m][v]
      check(set(x.dims) == set(p.dims) and set(y.dims) == set(p.dims) | {REP}, lambda: f'{w}: dims {x.dims} {y.dims} expected {p.dims}')
      for d in p.dims:
        check(sorted(y[d].values.tolist()) == sorted(p[d].values.tolist()), lambda: f'{w}: coordinate {d} of the replicates')
        y = y.sel({d: p[d].values})  # The order of labels is not specified.
      check(y.sizes[REP] == o['reps'], f'{w}: number of replicates {y.sizes[REP]}')
      xv, pv = x.transpose(*p.dims).values, p.values
      check(np.array_equal(np.isnan(xv), np.isnan(pv)), lambda: f'{w}: point estimate {xv} expected {pv}')
      if hole is None:
        check(np.all((np.abs(xv - pv) <= tol[m][v]) | np.isnan(pv)), lambda: f'{w}: point estimate {xv} expected {pv}')
      Y = y.transpose(REP, *p.dims).values.reshape(o['reps'], -1)
      R = ref[m][v].transpose('resample', *p.dims).values.reshape(len(C), -1)
      for k in range(Y.shape[1]):
        scale = np.nanmax(np.abs(R[:, k]), initial=1e-300)
        near = np.abs(Y[:, k][:, None] - R[:, k][None]) <= 1e-9 * scale + 1e-12 * (1 if case['scale'] >= 0 else 1e-3)
        near |= np.isnan(Y[:, k])[:, None] & np.isnan(R[:, k])[None]
        if hole is not None:
          near |= np.isnan(Y[:, k])[:, None]
        near |= ~np.isfinite(Y[:, k])[:, None] & ~np.isfinite(R[:, k])[None]
        bad = ~near.any(1)
        check(not bad.any(), lambda: f'{w}: replicate {Y[bad, k][:3]} is not the metric of any resample of whole units (values range {np.nanmin(R[:, k])} to {np.nanmax(R[:, k])}, estimate {pv.reshape(-1)[k]})')
        # One resample serves all metrics, variables and kept indices, unless block lengths are chosen separately.
        if hole is None:
          common['all'] = near if 'all' not in common else common['all'] & near
  if 'all' in common:
    bad = ~common['all'].any(1)
    check(not bad.any(), lambda: f"{o['kind']}: in replicate {np.flatnonzero(bad)[:3]} metrics, variables or indices were resampled differently")


@test('P25', st.tuples(ig.states(min_n=3, max_n=16, nmet=(1, 2), metrics=['mean', 'rmse', 'ratio', 'bias', 'csi', 'cross', 'two']), opts,
                       st.sampled_from([0.05, 0.3, 0.9]), st.sampled_from([0.02, 0.5])).map(list), quick=220)
def results_are_functions_of_replicates(args, ctx):
  case, o, a1, a2 = args
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  r = gen.rng(o['seed'])
  lab = clusters_of(case, r)
  st_in = with_clusters(state, case, lab, o['labels']) if o['kind'] == 'cluster' else state
  np.random.seed(o['npseed'])
  B = build(o['kind'], metrics, st_in, case, o['reps'], o['L'], 'cluster')
  np.random.seed(o['npseed'])
  B2 = build(o['kind'], metrics, st_in, case, o['reps'], o['L'], 'cluster')
  res = B.resampled_values
  se = B.standard_error_estimates()
  ci = {a: B.confidence_intervals(a) for a in (a1, a2)}
  dflt = B.confidence_intervals()
  ctx.nt(case['n'] >= 3)
  ctx.label('kind=' + o['kind'])
  for m in metrics:
    for v, y in res[m].items():
      w = f"{o['kind']} {m}.{v}"
      check(y.equals(B2.resampled_values[m][v]), f'{w}: two results from one seed')
      rest = [d for d in y.dims if d != REP]
      Y = y.transpose(REP, *rest).values.astype(float)
      flat = Y.reshape(len(Y), -1)
      if not np.isfinite(flat).all():
        continue
      sc = np.abs(flat).max() + 1e-300
      g = lambda x: x.transpose(*rest).values.reshape(-1).astype(float)
      want = flat.std(0, ddof=1)
      check(np.allclose(g(se[m][v]), want, rtol=1e-7, atol=1e-12 * sc), lambda: f'{w}: standard error {g(se[m][v])} expected {want}')
      for a, (lo, hi) in list(ci.items()) + [(0.05, dflt)]:
        for nm, x, q in (('lower', lo, a / 2), ('upper', hi, 1 - a / 2)):
          want = np.quantile(flat, q, axis=0)
          check(np.allclose(g(x[m][v]), want, rtol=1e-9, atol=1e-12 * sc), lambda: f'{w}: {nm} limit at {a}: {g(x[m][v])} expected {want}')
        check(np.all(g(lo[m][v]) <= g(hi[m][v])), f'{w}: ordered limits')
      A, Bq = (a1, a2) if a1 <= a2 else (a2, a1)
      check(np.all(g(ci[A][0][m][v]) <= g(ci[Bq][0][m][v])) and np.all(g(ci[Bq][1][m][v]) <= g(ci[A][1][m][v])), f'{w}: nested intervals')
      # p-values: the largest level at which the percentile interval still contains the null value.
      k = int(r.integers(0, flat.shape[1]))
      srt = np.sort(flat[:, k])
      for nul in (float(srt[0]), float(srt[-1]), float(srt[len(srt) // 3]), float((srt[1] + srt[2]) / 2), float(srt[0] - sc), float(srt[-1] + sc), 0.0,
                  float(r.uniform(srt[0], srt[-1]))):
        p = float(g(B.p_values(nul)[m][v])[k])
        want = inverted(srt, nul)
        check(abs(p - want) <= 1e-7, lambda: f'{w}: p-value {p} for null {nul}, expected {want} (replicates {srt[:4]}..{srt[-4:]})')
        for a, (lo, hi) in ci.items():
          if abs(p - a) < 1e-6:
            continue
          out = nul < g(lo[m][v])[k] - 1e-13 * sc or nul > g(hi[m][v])[k] + 1e-13 * sc
          inn = g(lo[m][v])[k] + 1e-13 * sc < nul < g(hi[m][v])[k] - 1e-13 * sc
          check(not (out and p > a) and not (inn and p < a), lambda: f'{w}: null {nul}, p-value {p}, level {a}, interval {g(lo[m][v])[k]}, {g(hi[m][v])[k]}')
          check(bool(B.significance_tests(nul, a)[m][v].transpose(*rest).values.reshape(-1)[k]) == (p <= a), f'{w}: significance verdict')


def inverted(srt, null):
  """sup of the levels whose percentile interval contains `null`; 0 if none does."""
  R = len(srt)
  if null < srt[0] or null > srt[-1]:
    return 0.0
  q = np.arange(R) / (R - 1)
  # Largest q with Q(q) <= null, smallest q with Q(q) >= null (Q piecewise linear).
  i = np.searchsorted(srt, null, 'right') - 1
  hi = 1.0 if i == R - 1 else q[i] + (null - srt[i]) / (srt[i + 1] - srt[i]) / (R - 1)
  j = np.searchsorted(srt, null, 'left')
  lo = 0.0 if j == 0 else q[j] - (srt[j] - null) / (srt[j] - srt[j - 1]) / (R - 1)
  return float(min(1.0, 2 * min(hi, 1 - lo)))


@test('P25', st.fixed_dictionaries(dict(n=st.sampled_from([2, 4, 8, 16]), x=st.integers(-6, 6), kind=st.sampled_from(['iid', 'cluster', 'stationary']),
                                        shift=st.sampled_from([0, 0, 1, -2]), L=st.sampled_from([1, 4, None]), w=st.booleans(), kept=st.booleans(),
                                        seed=gen.seeds)), quick=120)
def units_that_agree(case, ctx):
  """Zero-width interval at the estimate; p = 1 at the common value, 0 elsewhere."""
  n, x = case['n'], case['x'] / 4.0
  if n < 8 and case['L'] is None:
    case['L'] = 2
  if case['L'] is None:
    case['L'] = 3  # Automatic block length is undefined for constant series.
  ctx.nt(n > 2)
  ctx.label('kind=' + case['kind'], f"shift={case['shift']}")
  r = gen.rng(case['seed'])
  shape = (n, 2) if case['kept'] else (n,)
  dims = ['init_time', 'region'][:len(shape)]
  W = xr.DataArray(np.broadcast_to(r.choice([0.5, 1.0, 2.0], size=n).reshape((n,) + (1,) * (len(shape) - 1)) if case['w'] else np.ones(shape), shape).copy(),
                   dims=dims, coords={'init_time': gen.times(n)})
  state = aggregation.AggregationState({'m0': {'x': W * x}}, {'m0': {'x': W}})
  B = build(case['kind'], {'m': ig.Stat('m0')}, state, dict(dim='init_time'), 16, case['L'])
  get = lambda y: np.asarray(y['m']['x'].values, float).reshape(-1)
  check(np.all(get(B.point_estimates()) == x), 'point estimate')
  check(np.all(get(B.standard_error_estimates()) == 0), 'standard error')
  lo, hi = B.confidence_intervals(0.1)
  check(np.all(get(lo) == x) and np.all(get(hi) == x), lambda: f'interval {get(lo)} {get(hi)} of constant data {x}')
  p = get(B.p_values(x + case['shift']))
  want = 1.0 if case['shift'] == 0 else 0.0
  check(np.all(p == want), lambda: f"p-value {p} for constant data {x} and null {x + case['shift']}: the interval is [{x}, {x}]")
  sig = get(B.significance_tests(x + case['shift'], 0.05))
  check(np.all(sig == (case['shift'] != 0)), 'significance')


@test('P25', st.fixed_dictionaries(dict(n=st.sampled_from([3, 2, 5, 8]), kind=st.sampled_from(['iid', 'cluster', 'stationary']), L=st.sampled_from([1, 2]),
                                        reps=st.sampled_from([20, 60]), ratio=st.booleans(), seed=gen.seeds, npseed=st.integers(0, 2**31))), quick=70)
def replicates_without_data_are_left_out(case, ctx):
  """A bin that some resamples leave without any data is judged by the others; a bin without data has missing results."""
  n = case['n']
  r = gen.rng(case['seed'])
  have = np.ones((n, 4), bool)
  have[:, 1] = np.arange(n) == r.integers(0, n)
  have[:, 2] = False
  have[:, 3] = r.uniform(size=n) < 0.5
  coords = {'init_time': gen.times(n), 'region': list('abcd')}
  lab = np.arange(n) // (2 if r.uniform() < 0.5 else 1)
  mk = lambda a: xr.DataArray(a, dims=['init_time', 'region'], coords=coords).assign_coords(cluster=('init_time', lab))
  w = np.where(have, 0.5 + r.uniform(size=have.shape), 0.0)
  names = ['a', 'b'] if case['ratio'] else ['m0']
  metric = ig.CATALOGUE['ratio' if case['ratio'] else 'mean']()
  state = aggregation.AggregationState({k: {'x': mk(w * (1.0 + r.uniform(size=w.shape)))} for k in names}, {k: {'x': mk(w)} for k in names})
  np.random.seed(case['npseed'])
  B = build(case['kind'], {'m': metric}, state, dict(dim='init_time'), case['reps'], case['L'], 'cluster')
  Y = B.resampled_values['m']['x'].transpose(REP, 'region').sel(region=list('abcd')).values
  some = np.isnan(Y).any(0) & ~np.isnan(Y).all(0)
  check(np.isnan(Y[:, 2]).all() and not np.isnan(Y[:, 0]).any(), lambda: f'replicates {Y}')
  ctx.nt(bool(some.any()))
  ctx.label('kind=' + case['kind'], f'some missing={some.sum()}')
  g = lambda x: x['m']['x'].sel(region=list('abcd')).values.astype(float)
  se, (lo, hi) = g(B.standard_error_estimates()), [g(x) for x in B.confidence_intervals(0.2)]
  null = float(1 + r.uniform() * 0.5)
  p = g(B.p_values(null))
  for k in range(4):
    y = np.sort(Y[:, k][~np.isnan(Y[:, k])])
    w = f"{case['kind']} bin {k} with {len(y)} of {len(Y)} replicates"
    if not len(y):
      check(np.isnan([se[k], lo[k], hi[k], p[k]]).all(), lambda: f'{w}: {se[k]}, {lo[k]}, {hi[k]}, {p[k]}')
    if len(y) < 3:
      continue
    check(abs(se[k] - y.std(ddof=1)) <= 1e-9, lambda: f'{w}: standard error {se[k]} expected {y.std(ddof=1)}')
    check(abs(lo[k] - np.quantile(y, 0.1)) <= 1e-9 and abs(hi[k] - np.quantile(y, 0.9)) <= 1e-9, lambda: f'{w}: limits {lo[k]}, {hi[k]}')
    check(abs(p[k] - inverted(y, null)) <= 1e-7, lambda: f'{w}: p-value {p[k]} expected {inverted(y, null)}')


@test('P25', st.fixed_dictionaries(dict(n=st.sampled_from([3, 6, 10]), kind=st.sampled_from(['iid', 'cluster', 'stationary']), L=st.sampled_from([1, 2, 5]),
                                        seed=gen.seeds, npseed=st.integers(0, 2**31))), quick=60)
def resampling_distribution(case, ctx):
  """Counts per unit have the right mean and the right variance of resampled means (six-sigma limits)."""
  n, R = case['n'], 3000
  r = gen.rng(case['seed'])
  x = r.normal(size=n)
  lab = clusters_of(dict(n=n), r) if case['kind'] == 'cluster' else np.arange(n)
  mk = lambda a: xr.DataArray(a, dims=['t'], coords={'t': gen.times(n), 'cluster': ('t', lab)})
  one = mk(np.ones(n))
  state = aggregation.AggregationState({'m0': {f'u{i}': mk((np.arange(n) == i).astype(float)) for i in range(n)} | {'x': mk(x)}},
                                       {'m0': {v: one for v in [f'u{i}' for i in range(n)] + ['x']}})
  np.random.seed(case['npseed'])
  B = build(case['kind'], {'m': ig.Stat('m0')}, state, dict(dim='t'), R, case['L'], 'cluster')
  res = B.resampled_values['m']
  ctx.nt()
  ctx.label('kind=' + case['kind'], f"L={case['L']}")
  share = np.stack([res[f'u{i}'].values for i in range(n)])  # Fraction of the resample that is unit i.
  check(np.allclose(share.sum(0), 1), 'shares of all units add up to one')
  if case['kind'] != 'cluster':
    check(np.allclose(share * n, np.round(share * n), atol=1e-8), 'whole units')
    sd = share.std(1) / np.sqrt(R)
    check(np.all(np.abs(share.mean(1) - 1 / n) <= 6 * sd + 1e-12), lambda: f'units are not equally likely: {share.mean(1) * n}')
    m = res['x'].values
    d = x - x.mean()
    c = [np.sum(d * np.roll(d, -k)) / n for k in range(n)]
    p = 1.0 if case['kind'] == 'iid' else 1.0 / case['L']
    var = (c[0] + 2 * sum((1 - k / n) * (1 - p) ** k * c[k] for k in range(1, n))) / n
    q = (m - x.mean()) ** 2
    check(abs(q.mean() - var) <= 6 * q.std() / np.sqrt(R) + 1e-12, lambda: f"variance of the resampled mean {q.mean()} expected {var} (n={n}, mean block length {case['L']})")
  else:
    k = len(set(lab))
    sizes = np.bincount(lab)
    # Mean over clusters as units: recover cluster counts from the shares and the total size.
    cs = np.stack([share[lab == j].sum(0) / sizes[j] for j in range(k)])  # proportional to cluster counts
    for j in range(k):
      check(np.allclose(share[lab == j], cs[j][None]), 'clusters are drawn whole')
    counts = cs / cs.sum(0) * k
    check(np.allclose(counts, np.round(counts), atol=1e-8), 'whole clusters, as many as there are')
    sd = counts.std(1) / np.sqrt(R)
    check(np.all(np.abs(counts.mean(1) - 1) <= 6 * sd + 1e-12), lambda: f'clusters are not equally likely: {counts.mean(1)}')
    v = ((counts - 1) ** 2)
    check(np.all(np.abs(v.mean(1) - (1 - 1 / k)) <= 6 * v.std(1) / np.sqrt(R) + 1e-12), lambda: f'variance of cluster counts {v.mean(1)} expected {1 - 1 / k}')


@test('P25', st.fixed_dictionaries(dict(n=st.integers(1, 40), L=st.sampled_from([1, 1.25, 2, 7, 30, 1e9]), reps=st.sampled_from([50, 400]), npseed=st.integers(0, 2**31))),
      quick=400)
def blocks_are_contiguous_and_circular(case, ctx):
  n, L, R = case['n'], case['L'], case['reps']
  np.random.seed(case['npseed'])
  I = np.asarray(bootstrap.stationary_bootstrap_indices(n, L, R))
  ctx.nt(n > 2)
  ctx.label(f'L={L}')
  check(I.shape == (n, R), lambda: f'shape {I.shape}')
  check(I.min() >= 0 and I.max() < n, 'indices outside the data')
  if n < 3:
    return
  cont = I[1:] == (I[:-1] + 1) % n
  if L == 1e9:
    check(cont.all(), 'blocks much longer than the data are rotations of it')
  frac = cont.mean()
  want = (1 - 1 / L) + (1 / L) / n
  sd = np.sqrt(max(want * (1 - want), 1e-12) / cont.size)
  check(abs(frac - want) <= 6.5 * sd + 1e-6, lambda: f'fraction of continued blocks {frac}, expected {want} for mean block length {L}, n={n}')
  # Starts, and jump targets, are uniform; every position is equally likely over the whole sample.
  h = np.bincount(I[0], minlength=n)
  check(np.all(np.abs(h - R / n) <= 6.5 * np.sqrt(R / n * (1 - 1 / n)) + 3), lambda: f'first indices are not uniform: {h}')
  if L <= 2:
    J = I[1:][~cont]
    h = np.bincount(J, minlength=n)
    check(np.all(np.abs(h - J.size / n) <= 6.5 * np.sqrt(J.size / n) + 5), lambda: f'block starts are not uniform: {h}')


@test('P25', st.fixed_dictionaries(dict(n=st.sampled_from([40, 80]), phi=st.sampled_from([0.0, 0.6, 0.9]), seed=gen.seeds, npseed=st.integers(0, 2**31), res=st.sampled_from([30.0, None, 3.0]),
                                        metric=st.sampled_from(['mean', 'ratio']), nvars=st.integers(1, 2), kept=st.booleans())), quick=40)
def automatic_block_length(case, ctx):
  """Without a block length, each series gets the optimal one (Politis & White) of its own linearized values."""
  import arch.bootstrap
  n = case['n']
  c = dict(n=n, kept=[['lead_time', 2]] if case['kept'] else [], metrics=[case['metric']], vars=['x', 'y'][:case['nvars']], weights='ones', coord='int', pos=0,
           phi=case['phi'], scale=0, seed=case['seed'], kind='ar', dim='t')
  metrics = ig.make_metrics(c)
  state = ig.make_state(c, metrics)
  R = 1500
  np.random.seed(case['npseed'])
  B = build('stationary', metrics, state, c, R, None, block_length_rounding_resolution=case['res'])
  tg = ig.tangents(metrics, state, 't')
  ctx.nt(case['phi'] > 0)
  ctx.label(f"phi={case['phi']}", 'metric=' + case['metric'])
  m = case['metric']
  for v, y in B.resampled_values[m].items():
    rest = [d for d in y.dims if d != REP]
    Y = y.transpose(REP, *rest).values.reshape(R, -1)
    D = tg[m][v].transpose('t', *rest).values.reshape(n, -1)
    for k in range(Y.shape[1]):
      d = D[:, k] - D[:, k].mean()
      L = max(1.0, arch.bootstrap.optimal_block_length(d).stationary.item())
      cov = [np.sum(d * np.roll(d, -j)) / n for j in range(n)]
      def var(L):
        return (cov[0] + 2 * sum((1 - j / n) * (1 - 1 / L) ** j * cov[j] for j in range(1, n))) / n
      f = 10 ** (0.5 / case['res']) if case['res'] else 1.0
      rng_ = [var(max(1.0, x)) for x in np.linspace(L / f, L * f, 9)]
      q = (Y[:, k] - Y[:, k].mean()) ** 2
      t = 6 * q.std() / np.sqrt(R)
      if m != 'mean':
        t += 0.15 * max(rng_)  # Second-order terms of the ratio.
      check(min(rng_) * 0.999 - t <= q.mean() <= max(rng_) * 1.001 + t,
            lambda: f'{m}.{v}: variance of replicates {q.mean()}; expected {min(rng_)}..{max(rng_)} for the optimal mean block length {L}')


@test('P25', st.fixed_dictionaries(dict(n=st.integers(2, 7))), quick=12)
def too_few_units_for_automatic_length(case, ctx):
  ctx.nt()
  c = dict(n=case['n'], kept=[], metrics=['mean'], vars=['x'], weights='ones', coord='int', pos=0, phi=0.5, scale=0, seed=1, kind='ar', dim='t')
  ms = ig.make_metrics(c)
  expect_raises(lambda: build('stationary', ms, ig.make_state(c, ms), c, 5, None), ValueError, f"automatic block length from {case['n']} units")
  s = ig.make_state(c, ms)
  two = s.map(lambda x: x.expand_dims(z=2).assign_coords(bad=(('z', 't'), np.zeros((2, case['n'])))))
  expect_raises(lambda: bootstrap.ClusterBootstrap(ms, two, 'bad', 5), ValueError, 'a two-dimensional cluster coordinate')
  expect_raises(lambda: bootstrap.ClusterBootstrap(ms, s, 'nosuch', 5), ValueError, 'a missing cluster coordinate')
