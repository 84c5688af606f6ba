"""P11: area weights are proportional to spherical cell area."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation, weighting

RULE = ('latitude grids of 2-12 rows (even, uneven, quarter-degree, pole to pole, both orders, float64/32/int), '
        'custom latitude names, other dims, NaN-laden values; non-trivial = uneven or pole-touching or descending grid')
ASSUMPTIONS = ['a grid has at least two rows (a single row defines no cell boundary)',
               'latitudes lie in [-90, 90]']


def areas(lat):
  """Textbook cell areas of an arbitrary-order monotonic grid (pure python floats)."""
  up = lat[0] < lat[-1]
  a = list(lat) if up else list(lat)[::-1]
  b = [max(-90.0, a[0] - (a[1] - a[0]) / 2)]
  b += [(a[i] + a[i + 1]) / 2 for i in range(len(a) - 1)]
  b += [min(90.0, a[-1] + (a[-1] - a[-2]) / 2)]
  w = [math.sin(math.radians(b[i + 1])) - math.sin(math.radians(b[i])) for i in range(len(a))]
  return np.array(w if up else w[::-1]), b[0], b[-1]


@st.composite
def cases(draw):
  lat = draw(gen.latitudes(min_size=2, max_size=12))
  dt = draw(st.sampled_from(['float64', 'float64', 'float32', 'int64']))
  if dt == 'int64':
    lat = sorted(set(int(x) for x in lat), reverse=lat[0] > lat[-1])
    if len(lat) < 2:
      lat = [-30, 10]
  return dict(lat=[float(x) for x in lat], dt=dt, name=draw(st.sampled_from(['latitude', 'latitude', 'lat', 'y'])),
              norm=draw(st.booleans()), others=draw(st.lists(st.sampled_from(['longitude', 'lead_time', 'level']), unique=True)),
              pos=draw(st.integers(0, 3)), spec=draw(gen.array_spec(('normal', 'int'), nan=(0.0, 0.3, 1.0))),
              spec2=draw(gen.array_spec(('normal', 'int'), nan=(0.0, 0.3))), aux=draw(st.booleans()))


def stat(c, spec, lat, others=None):
  others = list(c['others'] if others is None else others)
  dims = others[:]
  dims.insert(min(c['pos'], len(dims)), c['name'])
  sizes = {'longitude': 3, 'lead_time': 2, 'level': 2, c['name']: len(lat)}
  da = xr.DataArray(gen.build([sizes[d] for d in dims], spec), dims=dims,
                    coords={c['name']: np.array(lat, c['dt'])})
  if c['aux']:
    da = da.assign_coords(land=(c['name'], np.arange(len(lat)) % 2))
  return da


@test('P11', cases(), quick=4000)
def weights_are_cell_areas(case, ctx):
  lat = case['lat']
  expected, lo, hi = areas(lat)
  ctx.nt(len(set(np.round(np.diff(lat), 9))) > 1 or lo == -90 or hi == 90 or lat[0] > lat[-1])
  ctx.label('desc' if lat[0] > lat[-1] else 'asc', f'norm={case["norm"]}', case['dt'],
            'pole' if lo == -90 or hi == 90 else 'nopole', f'n={len(lat)}')
  kw = {} if case['name'] == 'latitude' else dict(latitude_name=case['name'])
  W = weighting.GridAreaWeighting(return_normalized=case['norm'], **kw)
  s = stat(case, case['spec'], lat)
  w = W.weights(s)
  tol = dict(rtol=1e-3, atol=1e-5) if case['dt'] == 'float32' else dict(rtol=1e-9, atol=1e-12)
  check(tuple(w.dims) == (case['name'],), f'weights dims {w.dims}')
  same_np(w[case['name']].values, np.array(lat, case['dt']), 'weights latitude coordinate')
  check(np.all(w.values > 0), lambda: f'weights not positive: {w.values}')
  same_np(w.values / w.values.mean(), expected / expected.mean(), 'normalized weights', **tol)
  if case['norm']:
    same_np(w.values.mean(), 1.0, 'mean weight', **tol)
  else:
    # Proportional with one constant for all grids: total equals the covered band's share.
    same_np(w.values.sum() / (math.sin(math.radians(hi)) - math.sin(math.radians(lo))), 1.0, 'unnormalized total', **tol)
  # Nothing but latitude matters; reversal follows the rows.
  w2 = W.weights(stat(case, case['spec2'], lat, others=[]))
  same_np(w2.values, w.values, 'weights of other data on the same latitudes', rtol=0, atol=0)
  wr = W.weights(s.isel({case['name']: slice(None, None, -1)}))
  same_np(wr.values[::-1], w.values, 'weights with latitudes reversed', **tol)
  # Without a latitude dimension: uniform.
  u = W.weights(s.isel({case['name']: 0}))
  check(u.ndim == 0 and float(u) > 0, 'weights without latitude must be a uniform scalar')
  # Sub-grid sanity: used through the aggregator the mean is the area mean.
  v = stat(case, dict(case['spec'], nan=0.0), lat)
  agg = aggregation.Aggregator(reduce_dims=list(v.dims), weigh_by=[W])
  got = agg.aggregate_statistics({'s': {'v': v}}).mean_statistics()['s']['v']
  byrow = v.mean([d for d in v.dims if d != case['name']]).values.astype(float)
  same_np(float(got), float((byrow * expected).sum() / expected.sum()), 'area-weighted mean',
          **(dict(rtol=1e-3, atol=1e-3) if case['dt'] == 'float32' else dict(rtol=1e-9, atol=1e-9)))


@st.composite
def bad(draw):
  lat = draw(st.lists(st.integers(-90, 90), min_size=2, max_size=8))
  return dict(lat=lat)


@test('P11', bad(), quick=1500)
def non_monotonic_rejected(case, ctx):
  lat = np.array(case['lat'], float)
  d = np.diff(lat)
  mono = bool(np.all(d > 0) or np.all(d < 0))
  ctx.nt(not mono)
  ctx.label(f'monotonic={mono}')
  s = xr.DataArray(np.zeros(len(lat)), dims=['latitude'], coords={'latitude': lat})
  f = lambda: weighting.GridAreaWeighting().weights(s)
  if mono:
    same_np(f().values, areas(list(lat))[0] / areas(list(lat))[0].mean(), 'weights')
  else:
    expect_raises(f, (AssertionError, ValueError), f'non-monotonic latitudes {lat}')
