"""P09: geographic bins contain exactly the points inside them."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, expect_raises, same_da, same_np
from wbxv.core import test
from weatherbenchX import aggregation, binning

RULE = ('random grids and point sets (both longitude conventions, any order, coordinates on and off limits), '
        'regions crossing 0/360 and the dateline, bands, land fractions; non-trivial = some points inside and '
        'some outside a bin')
ASSUMPTIONS = ['limits, coordinates and widths are multiples of 1/4 degree (exact in floating point)',
               'a region of equal longitude limits (zero width) is not a region; widths are at most 360 degrees',
               'band widths that do not divide the range make a last band reaching beyond it']

q = lambda lo, hi: st.integers(int(lo * 2), int(hi * 2)).map(lambda x: x / 2.0)


@st.composite
def places(draw):
  """Grid or sparse points with latitude/longitude coordinates."""
  conv = draw(st.sampled_from([0, -180]))
  dt = draw(st.sampled_from(['float64', 'float32', 'int64']))
  coarse = draw(st.booleans())
  def lons(n, unique):
    s = st.integers(0, 11).map(lambda i: conv + 30.0 * i) if coarse and n <= 8 else q(conv, conv + 359.5)
    return draw(st.lists(s, min_size=n, max_size=n, unique=unique))
  def lats(n, unique):
    s = st.integers(0, 12).map(lambda i: -90.0 + 15 * i) if coarse and n <= 8 else q(-90, 90)
    return draw(st.lists(s, min_size=n, max_size=n, unique=unique))
  if draw(st.sampled_from(['grid', 'points'])) == 'grid':
    nlat, nlon = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    la, lo = lats(nlat, True), lons(nlon, True)
    order = draw(st.sampled_from(['asc', 'desc', 'any']))
    if order != 'any':
      la = sorted(la, reverse=order == 'desc')
      lo = sorted(lo)
    return dict(kind='grid', lat=la, lon=lo, dt=dt, extra=draw(st.sampled_from([0, 2])),
                first=draw(st.permutations(['latitude', 'longitude', 'time'])))
  n = draw(st.integers(1, 8))
  return dict(kind='points', lat=lats(n, False), lon=lons(n, False), dt=dt, extra=draw(st.sampled_from([0, 2])),
              first=['index', 'time'])


def stat_of(pl, seed=0):
  la, lo = np.array(pl['lat']), np.array(pl['lon'])
  if pl['dt'] != 'int64' or (np.all(la == np.round(la)) and np.all(lo == np.round(lo))):
    la, lo = la.astype(pl['dt']), lo.astype(pl['dt'])
  if pl['kind'] == 'grid':
    dims = ['latitude', 'longitude']
    coords = {'latitude': la, 'longitude': lo}
    shape = [len(la), len(lo)]
  else:
    dims, shape = ['index'], [len(la)]
    coords = {'latitude': ('index', la), 'longitude': ('index', lo)}
  if pl['extra']:
    dims, shape = dims + ['time'], shape + [pl['extra']]
  x = gen.rng(seed).integers(1, 100, size=shape).astype(float)
  da = xr.DataArray(x, dims=dims, coords=coords)
  return da.transpose(*[d for d in pl['first'] if d in dims])


def in_lon(lon, a, b):
  """a..b on the circle, closed."""
  b2 = b
  while b2 <= a:
    b2 += 360
  return any(a <= lon + 360 * k <= b2 for k in range(-4, 5))


def verify(mask, stat, dim, labels, inside, ctx, what, spatial):
  """mask has exactly the labels, and inside(label_index, lat, lon) everywhere; and aggregation uses it."""
  check(dim in mask.dims, f'{what}: no dimension {dim}')
  check(list(mask[dim].values.tolist()) == list(labels), lambda: f'{what}: labels {mask[dim].values.tolist()} vs {list(labels)}')
  full = xr.zeros_like(stat, dtype=bool).expand_dims({dim: list(labels)}).copy()
  exp = np.zeros(full.shape, bool)
  lat = stat.latitude.broadcast_like(stat).transpose(*stat.dims).values
  lon = stat.longitude.broadcast_like(stat).transpose(*stat.dims).values
  for b in range(len(labels)):
    for i in np.ndindex(*stat.shape):
      exp[(b,) + i] = inside(b, i, float(lat[i]), float(lon[i]))
  m = mask.astype(bool)
  m = m.reindex_like(stat) if stat.indexes and set(stat.indexes) & set(m.indexes) - {dim} else m
  m = m.broadcast_like(full).transpose(dim, *stat.dims)
  same_np(np.asarray(m.values, bool), exp, f'{what}: membership')
  ctx.nt(bool(exp.any()) and not bool(exp.all()))
  return exp


def aggregated(stat, binner, dim, labels, exp, what):
  spatial = [d for d in ('latitude', 'longitude', 'index') if d in stat.dims]
  st8 = aggregation.Aggregator(reduce_dims=spatial, bin_by=[binner]).aggregate_stat_var(stat)
  ax = tuple(stat.dims.index(d) + 1 for d in spatial)
  keep = [d for d in stat.dims if d not in spatial]
  s = (exp * stat.values[None]).sum(axis=ax)
  w = exp.astype(float).sum(axis=ax)
  coords = {dim: list(labels)}
  same_da(st8.sum_weighted_statistics, xr.DataArray(s, dims=[dim] + keep, coords=coords), what + ': binned sums')
  same_da(st8.sum_weights, xr.DataArray(w, dims=[dim] + keep, coords=coords), what + ': binned weights')


@st.composite
def region(draw):
  la = sorted(draw(st.lists(st.one_of(st.integers(0, 12).map(lambda i: -90.0 + 15 * i), q(-90, 90)), min_size=2, max_size=2, unique=True)))
  mode = draw(st.sampled_from(['plain', 'wrap0', 'dateline', 'full', 'full180', 'any']))
  if mode == 'full':
    lo = [0.0, 360.0]
  elif mode == 'full180':
    lo = [-180.0, 180.0]
  elif mode == 'wrap0':
    lo = [draw(q(270, 359.5)), draw(q(0, 60))]
    if draw(st.booleans()):
      lo[0] -= 360
  elif mode == 'dateline':
    lo = [draw(q(100, 179.5)), draw(q(-179.5, -100))]
  elif mode == 'plain':
    a = draw(st.integers(0, 10).map(lambda i: 30.0 * i))
    lo = [a, draw(st.sampled_from([a + 30, a + 60, 360.0, a + 0.5]))]
  else:
    lo = [draw(q(-180, 360)), draw(q(-180, 360))]
    if lo[0] == lo[1] or abs(lo[0] - lo[1]) > 360 or ((lo[0] - lo[1]) % 360 == 0 and lo[0] > lo[1]):
      lo = [10.0, 50.0]
  return [la, lo]


@st.composite
def region_cases(draw):
  rs = [draw(region()) for _ in range(draw(st.sampled_from([1, 2, 3])))]
  return dict(place=draw(places()), regions=rs, land=draw(st.sampled_from([False, True])),
              lseed=draw(gen.seeds), ltype=draw(st.sampled_from(['bool', 'float', 'int'])), flip=draw(st.booleans()),
              name=draw(st.sampled_from(['region', 'area'])), seed=draw(gen.seeds))


@test('P09', region_cases(), quick=1500)
def regions(case, ctx):
  stat = stat_of(case['place'], case['seed'])
  regs = {f'r{i}': (tuple(r[0]), tuple(r[1])) for i, r in enumerate(case['regions'])}
  kw = {} if case['name'] == 'region' else dict(bin_dim_name=case['name'])
  land = None
  labels = list(regs)
  if case['land'] and case['place']['kind'] == 'grid':
    la, lo = stat.latitude.values, stat.longitude.values
    lv = gen.rng(case['lseed']).integers(0, 2, size=(len(la), len(lo)))
    land = xr.DataArray(lv.astype({'bool': bool, 'float': float, 'int': int}[case['ltype']]), dims=['latitude', 'longitude'],
                        coords={'latitude': la, 'longitude': lo})
    arg = land.isel(latitude=slice(None, None, -1)) if case['flip'] else land
    kw['land_sea_mask'] = arg
    labels = labels + [f'{r}_land' for r in labels]
  ctx.label(f'land={land is not None}', case['place']['kind'])
  b = binning.Regions(regs, **kw)
  mask = b.create_bin_mask(stat)
  rl = list(regs.values())

  def inside(k, i, lat, lon):
    (la0, la1), (lo0, lo1) = rl[k % len(rl)]
    ok = la0 <= lat <= la1 and in_lon(lon, lo0, lo1)
    if k >= len(rl):
      pos = dict(zip(stat.dims, i))
      ok = ok and bool(land.values[pos['latitude'], pos['longitude']])
    return ok
  exp = verify(mask, stat, case['name'], labels, inside, ctx, 'Regions', None)
  aggregated(stat, b, case['name'], labels, exp, 'Regions')
  a, bb = case['regions'][0][0]
  expect_raises(lambda: binning.Regions({'x': ((bb, a), (0, 10))}).create_bin_mask(stat), ValueError, 'reversed latitude limits')


@st.composite
def band_cases(draw):
  which = draw(st.sampled_from(['lat', 'lon']))
  deg = draw(st.sampled_from([30, 15, 60, 45, 22.5, 90, 20, 50, 180, 10]))
  if which == 'lat':
    rng = draw(st.sampled_from([None, [-90, 90], [-60, 60], [0, 90], [-30, 15], [-90, 0]]))
  else:
    rng = draw(st.sampled_from([None, [0, 360], [-180, 180], [90, 270], [330, 30], [-30, 60], [180, 90]]))
    deg = draw(st.sampled_from([30, 15, 60, 45, 90, 120, 100, 180, 360, 50]))
  return dict(which=which, deg=deg, rng=rng, place=draw(places()), seed=draw(gen.seeds), name=draw(st.sampled_from([None, 'bands'])))


@test('P09', band_cases(), quick=1300)
def bands(case, ctx):
  stat = stat_of(case['place'], case['seed'])
  lat = case['which'] == 'lat'
  kw = {}
  if case['rng']:
    kw['lat_range' if lat else 'lon_range'] = tuple(case['rng'])
  if case['name']:
    kw['bin_dim_name'] = case['name']
  dim = case['name'] or ('latitude_bins' if lat else 'longitude_bins')
  b = (binning.LatitudeBins if lat else binning.LongitudeBins)(case['deg'], **kw)
  lo, hi = case['rng'] or ([-90, 90] if lat else [0, 360])
  if not lat and lo >= hi:
    hi += 360
  starts, s = [], lo
  while s < hi:
    starts.append(s)
    s += case['deg']
  labels = starts if lat else [x % 360 for x in starts]
  ctx.label(f"{case['which']} divides={(hi - lo) % case['deg'] == 0}", case['place']['kind'])
  mask = b.create_bin_mask(stat)
  def inside(k, i, la, ln):
    if lat:
      return starts[k] <= la <= starts[k] + case['deg']
    return case['deg'] >= 360 or in_lon(ln, starts[k], starts[k] + case['deg'])
  exp = verify(mask, stat, dim, labels, inside, ctx, b.__class__.__name__, None)
  if len(set(labels)) == len(labels):
    aggregated(stat, b, dim, labels, exp, b.__class__.__name__)


@st.composite
def land_cases(draw):
  pl = draw(places())
  pl['kind'] = 'grid'
  pl['lat'], pl['lon'] = list(dict.fromkeys(pl['lat'])), list(dict.fromkeys(pl['lon']))
  pl['first'] = draw(st.permutations(['latitude', 'longitude', 'time']))
  return dict(place=pl, seed=draw(gen.seeds), lseed=draw(gen.seeds), thr=draw(st.sampled_from([None, 0.5, 0.25, 1.0, 0.0])),
              glob=draw(st.booleans()), name=draw(st.sampled_from([None, 'surface'])), order=draw(st.booleans()))


@test('P09', land_cases(), quick=700)
def land_sea(case, ctx):
  stat = stat_of(case['place'], case['seed'])
  la, lo = stat.latitude.values, stat.longitude.values
  r = gen.rng(case['lseed'])
  frac = r.integers(0, 9, size=(len(la), len(lo))) / 8.0
  # On, just above and just below the usual thresholds.
  frac = np.clip(frac + r.choice([0.0, 0.0, 1e-3, -1e-3, 1e-12, -1e-12], size=frac.shape), 0, 1)
  lsf = xr.DataArray(frac, dims=['latitude', 'longitude'], coords={'latitude': la, 'longitude': lo})
  kw = {}
  if case['thr'] is not None:
    kw['land_sea_threshold'] = case['thr']
  if case['glob']:
    kw['include_global_mask'] = True
  if case['name']:
    kw['bin_dim_name'] = case['name']
  thr = 0.5 if case['thr'] is None else case['thr']
  dim = case['name'] or 'land_sea'
  b = binning.LandSea(lsf.transpose() if case['order'] else lsf, **kw)
  labels = ['land', 'sea'] + (['global'] if case['glob'] else [])
  mask = b.create_bin_mask(stat)
  def inside(k, i, lat, lon):
    pos = dict(zip(stat.dims, i))
    land = frac[pos['latitude'], pos['longitude']] >= thr
    return [land, not land, True][k]
  ctx.label(f"global={case['glob']}", f'on_threshold={bool((frac == thr).any())}')
  exp = verify(mask, stat, dim, labels, inside, ctx, 'LandSea', None)
  aggregated(stat, b, dim, labels, exp, 'LandSea')
