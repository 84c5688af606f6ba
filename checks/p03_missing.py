"""P03: missing values, masks and skipna against a brute-force reference."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import aggref, gen
from wbxv.cmp import check, same_da
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, deterministic, probabilistic

RULE = ('random statistics with missing values and/or masks, all four masked x skipna settings, '
        'weights and bins; non-trivial = a missing value is present or a mask excludes something')
ASSUMPTIONS = ['a mask is a boolean coordinate over a subset of the dims of its variable',
               'without masking a missing value outside a bin still counts as averaged data (documented)']
TOL = dict(float64=1e-9, float32=2e-4)


def tol_for(case, name):
  v = case['vars'][int(name[1:])]
  t = TOL[v['spec']['dtype']]
  return dict(rtol=t, atol=t * (1e4 if v['spec']['kind'] == 'wide' else 10))


@st.composite
def strategy(draw):
  c = draw(aggref.agg_cases(nan=(0.1, 0.0, 0.3, 1.0), masks=True, dtypes=('float64', 'float32')))
  for w in c['weights']:
    if isinstance(w, dict):
      w['dims'] = [d for d in w['dims'] if all(d in v['dims'] for v in c['vars'])]
  c['masked'] = draw(st.sampled_from([True, False]))
  c['skipna'] = draw(st.sampled_from([False, True]))
  c['junk'] = draw(st.sampled_from(['nan', 'inf', '1e30', '0']))
  return c


def masked_out(da):
  return ~da.mask.broadcast_like(da).transpose(*da.dims).values


@test('P03', strategy(), quick=2600)
def equals_reference(case, ctx):
  stats = aggref.stat_arrays(case)
  ws, bs = aggref.make_weighting_binning(case)
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], bin_by=bs or None, weigh_by=ws or None,
                               masked=case['masked'], skipna=case['skipna'])
  state = agg.aggregate_statistics({'s': stats})
  ref = {k: aggref.reference3(case, v, case['masked'], case['skipna']) for k, v in stats.items()}
  ref = {k: v for k, v in ref.items() if v is not None}
  got_s, got_w = state.sum_weighted_statistics['s'], state.sum_weights['s']
  check(set(got_s) == set(ref), lambda: f'variables {set(got_s)} vs {set(ref)}')
  means = state.mean_statistics()['s']
  for k, (S, W, A) in ref.items():
    da = stats[k]
    has_nan = bool(np.isnan(da.values).any())
    has_mask = 'mask' in da.coords and bool(masked_out(da).any())
    ctx.nt(bool(case['reduce']) and (has_nan or has_mask))
    ctx.label(f"masked={case['masked']} skipna={case['skipna']} nan={has_nan} mask={has_mask}")
    tol = tol_for(case, k)
    # Where NaN * 0 may or may not have been evaluated, accept a missing sum.
    g = got_s[k].transpose(*S.dims)
    S = S.copy(data=np.where(A.values & np.isnan(g.values), np.nan, S.values))
    same_da(g, S, f'sum_weighted[{k}]', **tol)
    same_da(got_w[k], W, f'sum_weights[{k}]', **tol)
    M = means[k].transpose(*W.dims).values
    s, w = S.values, W.values
    empty = w == 0
    check(not np.isfinite(M[empty]).any(), f'{k}: a group without data has a number: {M[empty]}')
    miss = np.isnan(s)
    check(np.isnan(M[miss]).all(), f'{k}: missing value averaged away')
    ok = ~empty & ~miss
    check(np.isfinite(M[ok]).all(), f'{k}: missing average where data are complete')
    if empty.any():
      ctx.label('empty group')
    if miss.any() and ok.any():
      ctx.label('some groups missing, some not')


@test('P03', strategy(), quick=900)
def masked_positions_are_ignored(case, ctx):
  """Values at masked-out positions never matter (metamorphic, any junk value)."""
  stats = aggref.stat_arrays(case)
  ws, bs = aggref.make_weighting_binning(case)
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], bin_by=bs, weigh_by=ws, masked=True,
                               skipna=case['skipna'])
  junk = float(case['junk'])
  other = {}
  for k, v in stats.items():
    if 'mask' in v.coords:
      mo = masked_out(v)
      if mo.any():
        ctx.nt()
        ctx.label('junk=' + case['junk'])
      v = v.copy(data=np.where(mo, np.asarray(junk, v.dtype), v.values))
    other[k] = v
  a, b = agg.aggregate_statistics({'s': stats}), agg.aggregate_statistics({'s': other})
  for k in a.sum_weights['s']:
    tol = tol_for(case, k)
    same_da(b.sum_weighted_statistics['s'][k], a.sum_weighted_statistics['s'][k], f'sums[{k}]', **tol)
    same_da(b.sum_weights['s'][k], a.sum_weights['s'][k], f'weights[{k}]', **tol)


@st.composite
def staged(draw):
  c = draw(strategy().filter(lambda c: len(c['reduce']) > 0))
  c['first'] = [d for d in c['reduce'] if draw(st.booleans())]
  c['stages'] = draw(st.sampled_from(['sum', 'sum twice', 'dot']))
  return c


@test('P03', staged(), quick=700)
def staged_reduction(case, ctx):
  """Summing the rest of the dimensions later misses and ignores exactly the same values."""
  stats = {k: v for k, v in aggref.stat_arrays(case).items() if aggref.reference3(case, v, case['masked'], case['skipna']) is not None}
  if not stats:
    return
  ws, bs = aggref.make_weighting_binning(case)
  rest = [d for d in case['reduce'] if d not in case['first']]
  agg = aggregation.Aggregator(reduce_dims=case['first'], bin_by=bs or None, weigh_by=ws or None, masked=case['masked'], skipna=case['skipna'])
  state = agg.aggregate_statistics({'s': stats})
  if case['stages'] == 'dot':
    if rest:
      state = state.dot(*[xr.DataArray(np.ones(case['sizes'][d]), dims=[d]) for d in rest], dim=rest)
  elif case['stages'] == 'sum':
    state = state.sum_along_dims(rest)
  else:
    for d in rest:
      state = state.sum_along_dims([d])
  means = state.mean_statistics()['s']
  for k, da in stats.items():
    S, W, A = aggref.reference3(case, da, case['masked'], case['skipna'])
    has_nan = bool(np.isnan(da.values).any())
    ctx.nt(bool(rest) and has_nan)
    ctx.label('stages=' + case['stages'] if rest else 'one stage')
    tol = tol_for(case, k)
    g = state.sum_weighted_statistics['s'][k].transpose(*S.dims)
    S = S.copy(data=np.where(A.values & np.isnan(g.values), np.nan, S.values))
    same_da(g, S, f'sum_weighted[{k}]', **tol)
    same_da(state.sum_weights['s'][k], W, f'sum_weights[{k}]', **tol)
    M = means[k].transpose(*W.dims).values
    bad = (W.values == 0) | np.isnan(S.values)
    check(not np.isfinite(M[bad]).any(), f'{k}: a number where data are missing')
    check(np.isfinite(M[~bad]).all(), f'{k}: missing average where data are complete')


@st.composite
def e2e(draw):
  n = [draw(st.sampled_from([2, 1, 3])) for _ in range(4)]
  return dict(n=n, spec=draw(gen.array_spec(('normal',), (0.15, 0.0, 0.5))),
              tspec=draw(gen.array_spec(('normal',), (0.0, 0.15))),
              reduce=[d for d in ['init_time', 'lead_time', 'latitude', 'longitude'] if draw(st.sampled_from([True, True, False]))],
              mask_on=draw(st.sampled_from(['targets', 'predictions', 'both', 'none'])),
              mdims=draw(st.sampled_from([['latitude', 'longitude'], ['init_time', 'lead_time', 'latitude', 'longitude'], ['lead_time'], ['longitude', 'latitude']])),
              mseed=draw(gen.seeds), p=draw(st.sampled_from([0.4, 0.1, 1.0])),
              masked=draw(st.booleans()), skipna=draw(st.booleans()))


@test('P03', e2e(), quick=900)
def through_metrics(case, ctx):
  """Masks and missing values carried from the inputs through scores to the metric values."""
  dims = ['init_time', 'lead_time', 'latitude', 'longitude']
  n = case['n']
  coords = {'init_time': gen.times(n[0]), 'lead_time': gen.h2td(np.arange(n[1]) * 6),
            'latitude': np.linspace(-60, 60, n[2]) if n[2] > 1 else [0.0],
            'longitude': np.arange(n[3]) * 20.0}
  p = xr.DataArray(gen.build(n, case['spec'], 1), dims=dims, coords=coords)
  t = xr.DataArray(gen.build(n, case['tspec'], 2), dims=dims, coords=coords)
  use = np.ones(n, bool)
  if case['mask_on'] != 'none':
    md = case['mdims']
    m = xr.DataArray(gen.rng(case['mseed']).uniform(size=[n[dims.index(d)] for d in md]) >= case['p'], dims=md)
    if case['mask_on'] in ('targets', 'both'):
      t = t.assign_coords(mask=m)
    if case['mask_on'] in ('predictions', 'both'):
      p = p.assign_coords(mask=m)
    full = m.broadcast_like(p).transpose(*dims).values
  else:
    full = use
  e = p.values - t.values
  if case['masked']:
    use = full.copy()
  if case['skipna']:
    use = use & ~np.isnan(e)
  ctx.nt(bool((~use).any()) or bool(np.isnan(e).any()))
  ctx.label(f"mask_on={case['mask_on']} masked={case['masked']} skipna={case['skipna']}")
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], masked=case['masked'], skipna=case['skipna'])
  out = aggregation.compute_metric_values_for_single_chunk(
      {'bias': deterministic.Bias(), 'rmse': deterministic.RMSE(), 'mae': deterministic.MAE()},
      agg, {'x': p, 'y': p.drop_vars('mask', errors='ignore')}, {'x': t, 'y': t.drop_vars('mask', errors='ignore')})
  ax = tuple(dims.index(d) for d in case['reduce'])
  keep = [d for d in dims if d not in case['reduce']]
  for v in 'xy':
    u = use if v == 'x' else (~np.isnan(e) if case['skipna'] else np.ones(n, bool))
    for name, f, post in (('bias', lambda x: x, lambda x: x), ('rmse', np.square, np.sqrt), ('mae', np.abs, lambda x: x)):
      s = np.where(u, f(e), 0).sum(axis=ax) if ax else np.where(u, f(e), 0)
      w = u.sum(axis=ax) if ax else u.astype(float)
      with np.errstate(all='ignore'):
        exp = post(s / w)
      same_da(out[f'{name}.{v}'], xr.DataArray(exp, dims=keep, coords={d: coords[d] for d in keep}), f'{name}.{v}')
