"""P02: aggregated statistics are the documented weighted mean (brute-force reference)."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import aggref, gen
from wbxv.cmp import check, fail, same_da, same_mapping, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation, binning
from weatherbenchX.metrics import deterministic

RULE = ('random statistics (1-4 dims of 6, any order, float64/32, int64, bool; 1-3 variables with '
        'different dims), reduced-dimension subsets, 0-2 weightings, 0-2 binnings; non-trivial = '
        'something is reduced and a weighting or binning is active, or a variable must be left out')
ASSUMPTIONS = ['a weighting may have dims the statistic lacks only if those are broadcast (as xarray does)']
TOL = dict(float64=1e-9, float32=2e-4, int64=1e-9, bool=1e-5)


def container(case, x):
  return {'list': list, 'tuple': tuple, 'set': set}[case['container']](x)


def tol_for(case, name):
  v = case['vars'][int(name[1:])]
  t = TOL[v['spec']['dtype']]
  return dict(rtol=t, atol=t * (1e4 if v['spec']['kind'] == 'wide' else 10))


def strategy():
  def fix(c):
    # Weights only over dims that every variable has (else broadcasting is not documented).
    for w in c['weights']:
      if isinstance(w, dict):
        w['dims'] = [d for d in w['dims'] if all(d in v['dims'] for v in c['vars'])]
    return c
  return aggref.agg_cases().map(fix)


@test('P02', strategy(), quick=2400)
def equals_reference(case, ctx):
  stats = aggref.stat_arrays(case)
  ws, bs = aggref.make_weighting_binning(case)
  agg = aggregation.Aggregator(reduce_dims=container(case, case['reduce']), bin_by=bs or None,
                               weigh_by=ws or None)
  state = agg.aggregate_statistics({'s': stats, 't': {k: -2.0 * v for k, v in list(stats.items())[:1]}})
  ref = {k: aggref.reference(case, v) for k, v in stats.items()}
  kept = {k: v for k, v in ref.items() if v is not None}
  ctx.nt(bool(case['reduce']) and (bool(ws) or bool(bs)) or len(kept) < len(ref))
  ctx.label(f'omitted={len(kept) < len(ref)}', f'bins={len(bs)}', f'weights={len(ws)}',
            'dtype=' + case['vars'][0]['spec']['dtype'], f"reduce={len(case['reduce'])}")
  check(set(state.sum_weighted_statistics) == {'s', 't'}, 'statistic names')
  got_s, got_w = state.sum_weighted_statistics['s'], state.sum_weights['s']
  check(set(got_s) == set(kept) == set(got_w),
        lambda: f'aggregated variables {set(got_s)} / {set(got_w)} vs expected {set(kept)}')
  means = state.mean_statistics()
  for k, (S, W) in kept.items():
    tol = tol_for(case, k)
    same_da(got_s[k], S, f'sum_weighted[{k}]', **tol)
    same_da(got_w[k], W, f'sum_weights[{k}]', **tol)
    with np.errstate(all='ignore'):
      M = S / W
    small = np.abs(W) < 1e-6
    same_da(means['s'][k].where(~small), M.where(~small), f'mean[{k}]', **tol)
    z = means['s'][k].transpose(*W.dims).values[(W.values == 0)]
    check(np.all(~np.isfinite(z)), f'mean[{k}] of an empty group is a number: {z}')
  if 'v0' in kept:
    S, W = kept['v0']
    same_da(state.sum_weighted_statistics['t']['v0'], -2.0 * S, 'statistic t', **tol_for(case, 'v0'))
  # Single-array entry point agrees.
  for k, v in stats.items():
    one = agg.aggregate_stat_var(v)
    check((one is None) == (k not in kept), f'aggregate_stat_var({k}) definedness')
    if one is not None:
      same_da(one.sum_weighted_statistics, got_s[k], f'aggregate_stat_var[{k}]')


@st.composite
def two_stage(draw):
  c = draw(strategy())
  first = [d for d in c['reduce'] if draw(st.booleans())]
  c['first'] = first
  c['dotdim'] = draw(st.sampled_from(c['reduce'])) if c['reduce'] else None
  c['dseed'] = draw(gen.seeds)
  return c


@test('P02', two_stage(), quick=900)
def two_stage_reduction(case, ctx):
  stats = aggref.stat_arrays(case)
  ws, bs = aggref.make_weighting_binning(case)
  mk = lambda r: aggregation.Aggregator(reduce_dims=r, bin_by=bs, weigh_by=ws)
  full = mk(case['reduce']).aggregate_statistics({'s': stats})
  part = mk(case['first']).aggregate_statistics({'s': {k: stats[k] for k in full.sum_weights['s'] }})
  rest = [d for d in case['reduce'] if d not in case['first']]
  two = part.sum_along_dims(rest)
  if case['first'] != case['reduce']:  # A state of nothing stays one when it is reduced further.
    two = sum([aggregation.AggregationState.zero().sum_along_dims(rest), two], aggregation.AggregationState.zero())
  ctx.nt(bool(rest) and bool(full.sum_weights['s']))
  ctx.label(f'rest={len(rest)}')
  for k in full.sum_weights['s']:
    same_da(two.sum_weighted_statistics['s'][k], full.sum_weighted_statistics['s'][k], f'two-stage sum {k}', **tol_for(case, k))
    same_da(two.sum_weights['s'][k], full.sum_weights['s'][k], f'two-stage weights {k}', **tol_for(case, k))
  d = case['dotdim']
  if d is not None and d in rest and full.sum_weights['s']:
    n = case['sizes'][d]
    w = xr.DataArray(gen.rng(case['dseed']).integers(0, 4, size=n).astype(float), dims=[d],
                     coords={d: aggref.coord(case, d)})
    dotted = part.dot(w, dim=d)
    for which in ('sum_weighted_statistics', 'sum_weights'):
      for k in full.sum_weights['s']:
        src = getattr(part, which)['s'][k]
        exp = sum(src.isel({d: i}, drop=True).astype(float) * float(w[i]) for i in range(n))
        same_da(getattr(dotted, which)['s'][k], exp, f'dot {which} {k}', **tol_for(case, k))


@st.composite
def chunk_cases(draw):
  return dict(n=[draw(st.integers(1, 4)) for _ in range(4)], spec=draw(gen.array_spec(('normal', 'int'))),
              lat=None, reduce=[d for d in ['init_time', 'lead_time', 'latitude', 'longitude'] if draw(st.booleans())],
              dup=draw(st.booleans()))


@test('P02', chunk_cases(), quick=300)
def convenience_function_and_bin_names(case, ctx):
  """compute_metric_values_for_single_chunk is the same mean; equal bin names are rejected."""
  dims = ['init_time', 'lead_time', 'latitude', 'longitude']
  coords = {'init_time': gen.times(case['n'][0]), 'lead_time': gen.h2td(np.arange(case['n'][1]) * 6),
            'latitude': np.linspace(-60, 60, case['n'][2]) if case['n'][2] > 1 else [0.0],
            'longitude': np.arange(case['n'][3]) * 20.0}
  mk = lambda s: xr.DataArray(gen.build(case['n'], case['spec'], s), dims=dims, coords=coords)
  p, t = {'a': mk(0), 'b': mk(1)}, {'a': mk(2), 'b': mk(3)}
  ctx.nt(bool(case['reduce']))
  agg = aggregation.Aggregator(reduce_dims=case['reduce'])
  out = aggregation.compute_metric_values_for_single_chunk(
      {'rmse': deterministic.RMSE(), 'bias': deterministic.Bias()}, agg, p, t)
  ax = tuple(dims.index(d) for d in case['reduce'])
  keep = [d for d in dims if d not in case['reduce']]
  for v in 'ab':
    e = p[v].values - t[v].values
    same_da(out[f'bias.{v}'], xr.DataArray(e.mean(axis=ax) if ax else e, dims=keep, coords={d: coords[d] for d in keep}), f'bias.{v}')
    m = (e ** 2).mean(axis=ax) if ax else e ** 2
    same_da(out[f'rmse.{v}'], xr.DataArray(np.sqrt(m), dims=keep, coords={d: coords[d] for d in keep}), f'rmse.{v}')
  check(set(out.data_vars) == {'bias.a', 'bias.b', 'rmse.a', 'rmse.b'}, f'result names {list(out.data_vars)}')
  two = [binning.LatitudeBins(30), binning.LatitudeBins(60)]
  expect_raises(lambda: aggregation.Aggregator(reduce_dims=['latitude'], bin_by=two).aggregate_stat_var(p['a']),
                ValueError, 'two binnings with the same dimension name')
