"""P24: parametric significance tests are calibrated to their formulas."""
import numpy as np
import scipy.stats
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, infgen as ig
from wbxv.cmp import check, fail, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.statistical_inference import t_test

RULE = ('per-unit sums and weights of 2-40 units (independent or autocorrelated series), 0-2 kept dimensions, 1-2 variables, 1-3 of 22 '
        'metrics (averages, roots, ratios, scores, correlations), equal/random/per-index/partly zero weights, levels, null values, v_0 '
        'settings, three tests (i.i.d., AR(2)-inflated, equal-weighted cosine); non-trivial = at least five units with a positive standard error')
ASSUMPTIONS = ['JAX evaluates metrics in single precision; tolerances are the spread of the reference under perturbations of that size',
               'non-finite inflation factors (outside the stationary region) are not compared where that spread is large',
               'data whose deviations are only rounding noise are not used for p-values']
METHODS = {'iid': t_test.IID, 'ar2': t_test.GeerAR2Corrected, 'ewc': t_test.LazarusHACEWC}


def effects(metrics, state, dim, case):
  """Per-unit deviations (unit last) and metric values, in double precision."""
  return ig.tangents(metrics, state, dim), ig.plain_values(metrics, state, dim)


def reference_se(d, method, v0):
  """d: array (..., n) of zero-mean per-unit deviations -> standard error, degrees of freedom."""
  n = d.shape[-1]
  var = (d ** 2).sum(-1) / (n - 1)
  if method == 'iid':
    return np.sqrt(var / n), n - 1
  if method == 'ar2':
    def rho(k):
      c = (d[..., :-k] * d[..., k:]).mean(-1)
      with np.errstate(all='ignore'):
        return np.where(var != 0, c / var, 0.0)
    r1, r2 = rho(1), rho(2)
    with np.errstate(all='ignore'):
      p1 = r1 * (1 - r2) / (1 - r1 ** 2)
      p2 = (r2 - r1 ** 2) / (1 - r1 ** 2)
      k = np.sqrt((1 - r1 * p1 - r2 * p2) / (1 - p1 - p2) ** 2)
    return np.sqrt(var / n) * k, n - 1
  v = min(max(1, int(v0 * n ** (2 / 3))), n - 1)
  t = np.arange(n)
  lam = np.stack([np.sqrt(2 / n) * (d * np.cos(np.pi * j * (t + 0.5) / n)).sum(-1) for j in range(1, v + 1)])
  return np.sqrt((lam ** 2).mean(0) / n), v


def se_with_tolerance(d, method, v0, noise):
  """Standard errors, degrees of freedom and how far rounding of size `noise` moves them (nan: undetermined)."""
  se, df = reference_se(d, method, v0)
  spread = np.zeros(se.shape)
  for k in range(6):
    r = gen.rng([k, 11])
    e = d + noise * r.choice([-1.0, 1.0], size=d.shape)
    s, _ = reference_se(e, method, v0)
    with np.errstate(all='ignore'):
      dev = np.abs(s - se)
    spread = np.where(np.isfinite(s) == np.isfinite(se), np.maximum(spread, np.where(np.isfinite(se), dev, 0)), np.nan)
  return se, df, 4 * spread + 2e-6 * np.abs(np.nan_to_num(se, posinf=0))


def run(cls, metrics, state, dim, method, v0):
  kw = dict(v_0=v0) if method == 'ewc' and v0 is not None else {}
  return cls(metrics, state, dim, **kw)


def leaves(x, metrics, case):
  for m in metrics:
    for v in x[m]:
      yield m, v, x[m][v]


def num(x, like):
  return np.asarray(x.transpose(*like.dims).values, float)


options = st.fixed_dictionaries(dict(
    method=st.sampled_from(list(METHODS)), v0=st.sampled_from([None, None, 0.4, 0.25, 0.8, 2.0, 50.0, 0.01]),
    alpha=st.sampled_from([0.05, 0.01, 0.1, 0.32, 0.5, 0.9]), alpha2=st.sampled_from([0.05, 0.02, 0.2, 0.6]),
    null=st.sampled_from([0.0, -1.0, 1.0, 0.3, 3.0]), seed=gen.seeds))


def fit(case, o):
  if o['method'] == 'ar2' and case['n'] < 5:
    case = dict(case, n=5)
  return case


@test('P24', st.tuples(ig.states(max_n=40), options).map(list), quick=460)
def equals_stated_test(args, ctx):
  case, o = args
  case = fit(case, o)
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  dim = case['dim']
  d, vals = effects(metrics, state, dim, case)
  tol = ig.value_tolerance(metrics, state, dim)
  T = run(METHODS[o['method']], metrics, state, dim, o['method'], o['v0'])
  point, se = T.point_estimates(), T.standard_error_estimates()
  lo, hi = T.confidence_intervals(o['alpha'])
  lo5, hi5 = T.confidence_intervals()
  ctx.label('method=' + o['method'], 'weights=' + case['weights'], f"n={case['n']}", *['metric=' + m for m in metrics])
  for m in metrics:
    check(set(point[m]) == set(se[m]) == set(lo[m]) == set(vals[m]), lambda: f'{m}: variables {set(se[m])} vs {set(vals[m])}')
    for v, ref in vals[m].items():
      w = f"{o['method']} {m}.{v}"
      for x in (point, se, lo, hi):
        check(set(x[m][v].dims) == set(ref.dims), lambda: f'{w}: dims {x[m][v].dims} expected {ref.dims}')
        for c in ref.dims:
          check(np.array_equal(x[m][v][c].values, ref[c].values), f'{w}: coordinate {c}')
      p = num(point[m][v], ref)
      check(np.all(np.abs(p - ref.values) <= tol[m][v]), lambda: f'{w}: point estimate {p} expected {ref.values}')
      dd = d[m][v].transpose(*ref.dims, dim).values
      noise = 2 * np.max(tol[m][v], initial=0) + 5e-5 * np.max(np.abs(dd), initial=0) * 1e-1
      rse, df, t = se_with_tolerance(dd, o['method'], 0.4 if o['v0'] is None else o['v0'], noise)
      g = num(se[m][v], ref)
      ok = np.isfinite(t)
      big = ok & np.isfinite(rse) & (t > 0.05 * rse)
      ok &= ~big
      ctx.nt(case['n'] >= 5 and bool(np.any(ok & (rse > 0))))
      bad = ok & ~((np.abs(g - rse) <= t) | (~np.isfinite(rse) & ~np.isfinite(g)))
      check(not bad.any(), lambda: f'{w}: standard error {g} expected {rse} (tolerance {t})')
      fin = ok & np.isfinite(rse)
      for a, L, H in ((o['alpha'], lo, hi), (0.05, lo5, hi5)):
        q = scipy.stats.t.ppf(1 - a / 2, df)
        for nm, x, want in (('lower', L, ref.values - q * rse), ('upper', H, ref.values + q * rse)):
          y = num(x[m][v], ref)
          e = np.abs(y - want) <= tol[m][v] + q * t + 1e-9 * abs(q) * np.nan_to_num(rse)
          check(bool(np.all(e | ~fin)), lambda: f'{w}: {nm} limit at alpha={a}: {y} expected {want}')
      # p-values at null values around the estimate.
      z = o['null'] * np.nan_to_num(rse, nan=0, posinf=0)
      nul = float((ref.values + z).flat[0]) if z.size else 0.0
      pv = num(T.p_values(nul)[m][v], ref)
      with np.errstate(all='ignore'):
        Z = np.abs(p.astype(float) - nul) / rse
        want = 2 * scipy.stats.t.sf(Z, df)
        dz = (2 * tol[m][v] + Z * t) / rse
      pt = np.abs(2 * scipy.stats.t.sf(np.maximum(Z - dz, 0), df) - 2 * scipy.stats.t.sf(Z + dz, df)) + 1e-9
      chk = fin & (rse > 0)
      check(bool(np.all((np.abs(pv - want) <= pt) | ~chk)), lambda: f'{w}: p-value {pv} for null {nul}, expected {want} (estimate {p}, se {rse}, df {df})')


@test('P24', st.tuples(ig.states(min_n=3, max_n=24, nmet=(1, 1)), options).map(list), quick=300)
def intervals_and_pvalues_agree(args, ctx):
  """Excluding the null value and rejecting it are the same decision; intervals are nested and contain the estimate."""
  case, o = args
  case = fit(case, o)
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  dim = case['dim']
  T = run(METHODS[o['method']], metrics, state, dim, o['method'], o['v0'])
  point, se = T.point_estimates(), T.standard_error_estimates()
  a1, a2 = o['alpha'], o['alpha2']
  ci = {a: T.confidence_intervals(a) for a in (a1, a2)}
  ctx.label('method=' + o['method'])
  for m, v, p in leaves(point, metrics, case):
    s = num(se[m][v], p)
    pe = p.values
    fin = np.isfinite(s)
    ctx.nt(bool(np.any(fin & (s > 0))) and case['n'] >= 5)
    w = f"{o['method']} {m}.{v}"
    lo1, hi1 = num(ci[a1][0][m][v], p), num(ci[a1][1][m][v], p)
    lo2, hi2 = num(ci[a2][0][m][v], p), num(ci[a2][1][m][v], p)
    check(bool(np.all(((lo1 <= pe) & (pe <= hi1)) | ~fin)), lambda: f'{w}: interval [{lo1}, {hi1}] does not contain the estimate {pe}')
    wide, nar = ((lo1, hi1), (lo2, hi2)) if a1 <= a2 else ((lo2, hi2), (lo1, hi1))
    check(bool(np.all(((wide[0] <= nar[0]) & (nar[1] <= wide[1])) | ~fin)), lambda: f'{w}: intervals at {a1} and {a2} are not nested')
    idx = tuple(gen.rng(o['seed']).integers(0, k) for k in p.shape)
    if not fin[idx] or s[idx] <= 1e-4 * max(1e-6, abs(pe[idx])):
      continue
    for e, b in ((lo1[idx], -1), (hi1[idx], 1), (lo2[idx], -1)):
      a = a2 if e == lo2[idx] and lo2[idx] != lo1[idx] else a1
      L, H = (lo1, hi1) if a == a1 else (lo2, hi2)
      for f in (-0.3, -0.02, 0.02, 0.3):
        nul = float(e + f * s[idx])
        sig = float(num(T.p_values(nul)[m][v], p)[idx])
        out = nul < L[idx] or nul > H[idx]
        if abs(sig - a) < 1e-5:
          continue
        check((sig < a) == out, lambda: f'{w}: null {nul}, p-value {sig}, level {a}, interval [{L[idx]}, {H[idx]}]')
        verdict = T.significance_tests(nul, a)[m][v].transpose(*p.dims).values[idx]
        check(bool(verdict) == (sig <= a), lambda: f'{w}: significance_tests says {verdict} at p-value {sig}, alpha {a}')
    # The p-value at an interval end is the level itself.
    at = float(num(T.p_values(float(lo1[idx]))[m][v], p)[idx])
    check(abs(at - a1) < 2e-3, lambda: f'{w}: p-value at the lower limit of the {a1} interval is {at}')


@test('P24', st.tuples(ig.states(min_n=3, max_n=16, metrics=['mean', 'bias', 'mae', 'mse', 'lin2', 'ratio', 'csi', 'rmse'], nmet=(1, 2)), options,
                       st.sampled_from(['order', 'reverse', 'units', 'slices', 'weights', 'dims'])).map(list), quick=300)
def invariances(args, ctx):
  case, o, how = args
  if how == 'order':
    o = dict(o, method='iid')
  case = fit(case, o)
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  dim = case['dim']
  r = gen.rng(o['seed'])
  c = 1.0
  make = lambda s, ms=metrics: run(METHODS[o['method']], ms, s, dim, o['method'], o['v0'])
  A = make(state)
  sel = lambda x: x
  ms = metrics
  if how in ('order', 'reverse'):
    p = r.permutation(case['n']) if how == 'order' else np.arange(case['n'])[::-1]
    new = state.map(lambda x: x.isel({dim: p}))
  elif how == 'units':
    c = float(r.choice([0.125, 4.0, 1024.0]))
    new = aggregation.AggregationState({k: {v: x * c for v, x in d.items()} for k, d in state.sum_weighted_statistics.items()}, state.sum_weights)
  elif how == 'weights':  # A common factor of all weights cancels.
    new = state.map(lambda x: x * 7.0)
  elif how == 'dims':
    new = state.map(lambda x: x.transpose(*reversed(x.dims)))
  else:
    if not case['kept']:
      return
    d0, size = case['kept'][0]
    k = int(r.integers(0, size))
    new = state.map(lambda x: x.isel({d0: [k]}))
    sel = lambda x: x.isel({d0: [k]})
    ms = {m: metrics[m] for m in list(metrics)[:1]}
  B = make(new, ms)
  ctx.label('how=' + how, 'method=' + o['method'])
  ctx.nt(case['n'] >= 5)
  d, vals = effects(metrics, state, dim, case)
  tol = ig.value_tolerance(metrics, state, dim)
  for m in ms:
    hom = c if m in ('mean', 'bias', 'mae', 'mse', 'lin2') else np.sqrt(c) if m == 'rmse' else 1.0
    for v, ref in vals[m].items():
      ref = sel(ref)
      t = 2 * np.max(tol[m][v], initial=0)
      dd = d[m][v].transpose(*vals[m][v].dims, dim)
      noise = 2 * t + 1e-5 * float(np.abs(dd.values).max())
      rse, df, st_ = se_with_tolerance(sel(dd).transpose(*ref.dims, dim).values, o['method'], 0.4 if o['v0'] is None else o['v0'], noise)
      ok = np.isfinite(st_) & np.isfinite(rse)
      x, y = num(sel(A.point_estimates()[m][v]), ref), num(B.point_estimates()[m][v], ref)
      check(bool(np.all(np.abs(hom * x - y) <= 2 * t * hom)), lambda: f'{how} {m}.{v}: point estimate {x} (times {hom}) became {y}')
      x, y = num(sel(A.standard_error_estimates()[m][v]), ref), num(B.standard_error_estimates()[m][v], ref)
      check(bool(np.all((np.abs(hom * x - y) <= 2 * st_ * hom + 1e-5 * hom * np.nan_to_num(rse)) | ~ok)), lambda: f'{how} {m}.{v}: standard error {x} (times {hom}) became {y}')


@test('P24', st.fixed_dictionaries(dict(n=st.integers(2, 12), x=st.integers(-6, 6), method=st.sampled_from(list(METHODS)), alpha=st.sampled_from([0.05, 0.5]),
                                        shift=st.sampled_from([0, 0, 1, -2]), kept=st.integers(0, 2), seed=gen.seeds)), quick=200)
def constant_data(case, ctx):
  """All units equal: zero standard error, an interval that is the estimate, p = 1 there and 0 elsewhere."""
  n = case['n'] if case['method'] != 'ar2' else max(3, case['n'])
  ctx.nt(n > 2)
  ctx.label('method=' + case['method'], f"shift={case['shift']}")
  x = case['x'] / 4.0
  shape = (n,) + ((case['kept'],) if case['kept'] else ())
  dims = ['init_time'] + (['region'] if case['kept'] else [])
  S = xr.DataArray(np.full(shape, x), dims=dims, coords={'init_time': gen.times(n)})
  if case['kept'] == 2:  # One constant column next to a varying one.
    S.values[:, 1] = gen.rng(case['seed']).normal(size=n)
  state = aggregation.AggregationState({'m0': {'x': S}}, {'m0': {'x': xr.ones_like(S)}})
  T = METHODS[case['method']]({'m': ig.Stat('m0')}, state, 'init_time')
  get = lambda y: float(np.asarray(y['m']['x'].values).reshape(-1)[0])
  check(get(T.point_estimates()) == x, 'point estimate of constant data')
  check(get(T.standard_error_estimates()) == 0, lambda: f"standard error {get(T.standard_error_estimates())} of constant data")
  lo, hi = T.confidence_intervals(case['alpha'])
  check(get(lo) == x == get(hi), 'interval of constant data')
  p = get(T.p_values(x + case['shift']))
  check(p == (1.0 if case['shift'] == 0 else 0.0), lambda: f"p-value {p} for constant data {x} and null {x + case['shift']}")
  sig = get(T.significance_tests(x + case['shift'], case['alpha']))
  check(bool(sig) == (case['shift'] != 0), 'significance of constant data')


@test('P24', st.tuples(ig.states(min_n=3, max_n=16, nmet=(1, 2)), options, st.booleans()).map(list), quick=180)
def missing_units(args, ctx):
  """A missing statistic of one unit makes the test of its own index missing (never significant) and leaves other indices alone."""
  case, o, in_weights = args
  case = fit(case, o)
  metrics = ig.make_metrics(case)
  state = ig.make_state(case, metrics)
  dim = case['dim']
  r = gen.rng(o['seed'])
  at = {d: int(r.integers(0, s)) for d, s in case['kept']}
  unit = int(r.integers(0, case['n']))
  def hole(x):
    m = xr.DataArray(np.arange(x.sizes[dim]) == unit, dims=[dim])
    for d, i in at.items():
      m = m & xr.DataArray(np.arange(x.sizes[d]) == i, dims=[d])
    return x.where(~m).transpose(*x.dims)
  S = {k: {v: hole(x) for v, x in d.items()} for k, d in state.sum_weighted_statistics.items()}
  W = {k: {v: hole(x) for v, x in d.items()} for k, d in state.sum_weights.items()} if in_weights else state.sum_weights
  T = run(METHODS[o['method']], metrics, aggregation.AggregationState(S, W), dim, o['method'], o['v0'])
  F = run(METHODS[o['method']], metrics, state, dim, o['method'], o['v0'])
  ctx.nt()
  ctx.label('method=' + o['method'], f"kept={len(case['kept'])}", f'weights={in_weights}')
  views = {'estimate': lambda X: X.point_estimates(), 'standard error': lambda X: X.standard_error_estimates(),
           'lower limit': lambda X: X.confidence_intervals(o['alpha'])[0], 'upper limit': lambda X: X.confidence_intervals(o['alpha'])[1],
           'p-value': lambda X: X.p_values(o['null'])}
  for nm, view in views.items():
    a, b = view(T), view(F)
    for m, v, x in leaves(a, metrics, case):
      check(bool(np.isnan(x.isel(at).values).all()), lambda: f"{o['method']} {m}.{v}: {nm} {x.values} although unit {unit} is missing at {at}")
      full = b[m][v].transpose(*x.dims)
      others = np.ones(x.shape, bool)
      others[tuple(at[d] if d in at else slice(None) for d in x.dims)] = False
      y, z = x.values[others], full.values[others]
      check(np.allclose(y, z, rtol=1e-5, atol=1e-6 * np.nanmax(np.abs(z), initial=0), equal_nan=True), lambda: f"{o['method']} {m}.{v}: {nm} {y} of other indices was {z}")
  for m, v, x in leaves(T.significance_tests(o['null'], o['alpha']), metrics, case):
    check(not x.isel(at).values.any(), lambda: f'{m}.{v}: significant although missing')


def _irregular(kind, method, steps, uneven, seed):
  mk = {'datetime': lambda s: np.datetime64('2020-01-01', 'ns') + gen.h2td(12 * s), 'timedelta': lambda s: gen.h2td(6 * s), 'int': lambda s: 10 + 2 * s,
        'float': lambda s: 0.1 * s}[kind]
  x = xr.DataArray(gen.rng(seed).normal(size=len(steps)), dims=['t'], coords={'t': mk(uneven)})
  go = lambda x: METHODS[method]({'m': ig.Stat('m0')}, aggregation.AggregationState({'m0': {'x': x}}, {'m0': {'x': xr.ones_like(x)}}), 't')
  go(x.assign_coords(t=mk(steps)))
  if len(set(np.diff(uneven))) == 1 or method == 'iid':
    go(x)
  else:
    expect_raises(lambda: go(x), ValueError, f'non-uniform {kind} steps {uneven}')


@test('P24', st.fixed_dictionaries(dict(kind=st.sampled_from(['timedelta', 'int', 'float', 'datetime']), n=st.integers(4, 10), gap=st.integers(0, 8),
                                        method=st.sampled_from(list(METHODS)), seed=gen.seeds)), quick=160)
def irregular_time_steps_rejected(case, ctx):
  """Tests that model dependence in time do not support non-uniform steps; the i.i.d. test does not care."""
  n = case['n']
  steps = np.arange(n)
  gap = 1 + case['gap'] % (n - 1)
  uneven = np.where(steps >= gap, steps + 1, steps)
  uniform = len(set(np.diff(uneven))) == 1
  if case['kind'] == 'datetime' and case['method'] != 'iid':
    uneven = steps  # Non-uniform dates: the known findings of irregular_dates_rejected.
    uniform = True
  ctx.nt(not uniform)
  ctx.label('kind=' + case['kind'], 'method=' + case['method'], f'uniform={uniform}')
  _irregular(case['kind'], case['method'], steps, uneven, case['seed'])


@test('P24', st.sampled_from([dict(method='ar2'), dict(method='ewc'), dict(method='iid')]), quick=3, thorough=3)
def irregular_dates_rejected(case, ctx):
  """The same for dates (the usual init_time): fixed cases, see known_findings.json."""
  ctx.nt()
  _irregular('datetime', case['method'], np.arange(6), np.array([0, 1, 2, 4, 5, 6]), 1)
