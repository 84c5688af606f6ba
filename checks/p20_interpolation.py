"""P20: interpolation returns the field value at the requested place."""
import itertools

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import interpolations as itp

RULE = ('grids of 2-7 by 2-7 points (ascending, descending or shuffled latitudes; regional or full-circle longitudes, both '
        'conventions, any order, uneven), extra dimensions, time dimensions, missing values; station lists (0-6, duplicates, on '
        'grid points, between, outside, other longitude convention) and orthogonal target grids; linear and nearest, wrap, '
        'extrapolation; non-trivial = a target that is not a grid point')
ASSUMPTIONS = ['wrap_longitude is asked for only on grids that span the circle (gaps of any size, no repeated point)',
               'nearest: distance is measured per dimension; ties may go either way',
               'CropToBox: whether a longitude exactly on the box edge is included is not specified (documentation and code differ)']


@st.composite
def grid_axes(draw):
  ny, nx = draw(st.integers(2, 7)), draw(st.integers(2, 7))
  even = draw(st.booleans())
  step = draw(st.sampled_from([1.0, 5.0, 12.5]))
  lat0 = draw(st.integers(-90, 10))
  lat = [lat0 + step * i for i in range(ny)]
  if not even:
    gaps = draw(st.lists(st.sampled_from([0.5, 1.0, 3.0, 7.5]), min_size=ny - 1, max_size=ny - 1))
    lat = [float(lat0 + x) for x in np.concatenate([[0], np.cumsum(gaps)])]
  conv = draw(st.sampled_from([0.0, -180.0, -90.0]))
  circle = draw(st.booleans())
  if circle and even:
    off = draw(st.sampled_from([0.0, 0.5 * 360 / nx]))
    lon = [conv + off + 360.0 * i / nx for i in range(nx)]
  else:
    lon = [conv + x for x in sorted(draw(st.lists(st.integers(0, 359), min_size=nx, max_size=nx, unique=True)))]
  order = st.sampled_from(['asc', 'asc', 'desc', 'roll', 'shuffle'])
  return dict(lat=[float(x) for x in lat], lon=[float(x) for x in lon], circle=circle, latorder=draw(order), lonorder=draw(order),
              oseed=draw(gen.seeds), f32=draw(st.integers(0, 3)) == 0)


def reorder(x, how, seed):
  x = np.array(x)
  if how == 'desc':
    return x[::-1].copy()
  if how == 'roll':
    return np.roll(x, 1 + seed % max(1, len(x) - 1))
  if how == 'shuffle':
    return gen.rng(seed).permutation(x)
  return x


def axes(g):
  lat, lon = reorder(g['lat'], g['latorder'], g['oseed']), reorder(g['lon'], g['lonorder'], g['oseed'] + 1)
  return lat, lon


def targets_1d(r, xs, n, circle, wrap, kinds, exact_only=False):
  """n target coordinates relative to the grid xs."""
  s = np.sort(xs)
  out, other = [], False
  for _ in range(n):
    k = kinds[r.integers(len(kinds))]
    if exact_only:
      k = 'grid'
    if k == 'grid':
      v = float(s[r.integers(len(s))])
    elif k == 'between':
      i = r.integers(len(s) - 1)
      v = s[i] + (s[i + 1] - s[i]) * r.integers(1, 8) / 8.0
    elif k == 'edge':
      v = float(s[[0, -1][r.integers(2)]])
    else:  # out: beyond the first or last point
      d = [0.25, 1.0, 2.5][r.integers(3)]
      v = s[0] - d if r.integers(2) else s[-1] + d
      if wrap:
        gap = 360 - (s[-1] - s[0])
        v = s[-1] + gap * r.integers(1, 8) / 8.0
        if r.integers(2):
          v -= 360.0
    if wrap and r.integers(4) == 0:
      v += [-360.0, 360.0][r.integers(2)]
      other = True
    out.append(float(v))
  return np.array(out)


def axis_weights(xs, v, method, wrap, extrap):
  """[(weight, index), ...] alternatives along one axis.

  Returns a list of alternatives (ties of nearest), each a list of (w, i), or
  None outside the grid without extrapolation."""
  o = np.argsort(xs)
  s = xs[o]
  idx = list(o)
  if wrap:
    v = s[0] + np.mod(v - s[0], 360.0)
    s = np.append(s, s[0] + 360.0)
    idx = idx + [o[0]]
  if (v < s[0] or v > s[-1]) and not extrap:
    return None
  if method == 'nearest':
    d = np.abs(s - v)
    return [[(1.0, idx[i])] for i in range(len(s)) if d[i] <= d.min() + 1e-4]
  j = int(np.clip(np.searchsorted(s, v) - 1, 0, len(s) - 2))
  f = (v - s[j]) / (s[j + 1] - s[j])
  # Further neighbours have no weight: a value missing there may or may not matter.
  more = [idx[k] for k in (j - 1, j + 2) if 0 <= k < len(s)]
  if wrap:
    more += [idx[-2], idx[0], idx[1]]
  return [[(1 - f, idx[j]), (f, idx[j + 1])] + [(0.0, k) for k in more]]


def value_at(v, alts):
  """v[..., a, b, ...] over the last len(alts) axes; returns list of acceptable (value array, free mask)."""
  outs = []
  for combo in itertools.product(*alts):
    tot, free = 0.0, False
    for pts in itertools.product(*combo):
      w = np.prod([p[0] for p in pts])
      x = v[(Ellipsis,) + tuple(p[1] for p in pts)]
      free = free | (np.isnan(x) & (abs(w) < 1e-9))
      if abs(w) >= 1e-12:
        tot = tot + w * x
    outs.append((tot, free))
  return outs


def time_free(outs, v, alts, axis, keepdims=False):
  """Values missing at other times have no weight: they may or may not matter."""
  o = value_at(np.where(np.isnan(v).any(axis=axis, keepdims=keepdims), np.nan, 0.0), alts)
  return [(e, (free | np.isnan(z) | fz) & ~np.isnan(e)) for (e, free), (z, fz) in zip(outs, o)]


def compare(got, outs, what, scale):
  tol = 2e-5 * scale + 1e-6
  for e, free in outs:
    ok = np.isclose(got, e, rtol=2e-5, atol=tol, equal_nan=True) | free
    if np.all(ok):
      return
  fail(f'{what}: got {got}, expected {outs[0][0]}' + (f' (or {len(outs) - 1} ties)' if len(outs) > 1 else ''))


@st.composite
def cases(draw):
  g = draw(grid_axes())
  wrap = g['circle'] and draw(st.booleans())
  return dict(g=g, wrap=wrap, method=draw(st.sampled_from(['linear', 'linear', 'nearest'])), extrap=draw(st.booleans()),
              n=draw(st.sampled_from([0, 1, 2, 3, 6])), tseed=draw(gen.seeds), spec=draw(gen.array_spec(('normal', 'int'), nan=(0.0, 0.0, 0.1))),
              extra=draw(st.integers(0, 2)), perm=draw(st.permutations(range(4))), ds=draw(st.booleans()), nv=draw(st.integers(1, 2)),
              dims=draw(st.sampled_from(['auto', 'explicit'])), ny=draw(st.integers(1, 4)), nx=draw(st.integers(1, 4)),
              kinds=draw(st.sampled_from([['grid'], ['between', 'grid'], ['grid', 'between', 'edge', 'out'], ['out']])),
              nt=draw(st.sampled_from([None, None, (1, 1), (2, 1), (2, 2), (1, 3)])))


def field(case, variables, times=True):
  lat, lon = axes(case['g'])
  dims, shape, coords = [], [], {'latitude': lat, 'longitude': lon}
  if case['extra'] > 0:
    dims.append('number')
    shape.append(2)
    coords['number'] = [3, 7]
  if case['extra'] > 1:
    dims.append('level')
    shape.append(2)
  if times and case['nt']:
    dims += ['init_time', 'lead_time']
    shape += list(case['nt'])
    coords['init_time'] = gen.h2dt(np.arange(case['nt'][0]) * 24)
    coords['lead_time'] = gen.h2td(np.arange(case['nt'][1]) * 6)
  dims += ['latitude', 'longitude']
  shape += [len(lat), len(lon)]
  if case['g']['f32']:
    coords['latitude'], coords['longitude'] = lat.astype('float32'), lon.astype('float32')
  V = {v: gen.build(shape, case['spec'], i) for i, v in enumerate(variables)}
  das = {}
  for v in variables:
    a = xr.DataArray(V[v], dims=dims, coords=coords, name=v)
    p = [dims[j] for j in case['perm'] if j < len(dims)]
    das[v] = a.transpose(*p, *[d for d in dims if d not in p])
  return das, V, dims, coords


@test('P20', cases(), quick=700)
def stations(case, ctx):
  """Interpolation to reference points (stations)."""
  variables = [f'v{i}' for i in range(case['nv'])]
  das, V, dims, coords = field(case, variables)
  lat, lon = coords['latitude'].astype(float), coords['longitude'].astype(float)
  r = gen.rng(case['tseed'])
  refs, pts = {}, {}
  times = 'init_time' in coords
  for v in variables:
    n = case['n']
    ty = targets_1d(r, lat, n, False, False, case['kinds'])
    tx = targets_1d(r, lon, n, case['g']['circle'], case['wrap'], case['kinds'])
    if n > 2:
      ty[1], tx[1] = ty[0], tx[0]
    c = dict(latitude=('index', ty), longitude=('index', tx), station=('index', np.array([f's{i}{v}' for i in range(n)], dtype='U5')),
             elevation=('index', np.arange(n) * 1.5))
    ti = tl = None
    if times:
      ti, tl = r.integers(0, len(coords['init_time']), n), r.integers(0, len(coords['lead_time']), n)
      c['init_time'] = ('index', coords['init_time'][ti])
      c['lead_time'] = ('index', coords['lead_time'][tl])
    refs[v] = xr.DataArray(np.arange(n, dtype=float), dims=['index'], coords=c, name=v)
    pts[v] = (ty, tx, ti, tl)
  refs['unrelated'] = xr.DataArray([1.0], dims='other')
  dimarg = None if case['dims'] == 'auto' or times else ['latitude', 'longitude']
  it = itp.InterpolateToReferenceCoords(case['method'], dims=dimarg, wrap_longitude=case['wrap'], extrapolate_out_of_bounds=case['extrap'])
  before = {v: das[v].copy(deep=True) for v in das}
  use_ds = case['ds'] and case['nv'] == 1
  got = it.interpolate(xr.Dataset(das) if use_ds else das, refs)
  check(set(got) == set(variables), 'variables')
  offgrid = False
  for v in variables:
    check(das[v].identical(before[v]), 'the input field was modified')
    ty, tx, ti, tl = pts[v]
    gotv = got[v]
    keep = [d for d in dims if d in ('number', 'level')]
    check(set(gotv.dims) == set(keep + ['index']), f'dims {gotv.dims}')
    for c in refs[v].coords:
      check(c in gotv.coords, f'coordinate {c} of the targets is lost')
      if set(gotv[c].dims) == {'index'} and c in ('latitude', 'longitude'):
        same_np(gotv[c].values.astype(float), refs[v][c].values, f'coordinate {c} of the targets', rtol=1e-6, atol=1e-6)
      else:
        same_np(gotv[c].values, refs[v][c].values, f'coordinate {c} of the targets')
    for d in keep:
      if d in coords:
        same_np(gotv[d].values, np.array(coords[d]), f'coordinate {d}')
    x = gotv.transpose(*keep, 'index').values
    scale = np.nanmax(np.abs(V[v]), initial=1.0)
    for i in range(len(ty)):
      a = axis_weights(lat, ty[i], case['method'], False, case['extrap'])
      b = axis_weights(lon, tx[i], case['method'], case['wrap'], case['extrap'])
      offgrid |= ty[i] not in lat or tx[i] not in lon
      f = V[v] if ti is None else V[v][..., ti[i], tl[i], :, :]
      w = f"{case['method']} at lat={ty[i]} lon={tx[i]} (grid lat {list(lat)}, lon {list(lon)}, wrap={case['wrap']}, extrapolate={case['extrap']})"
      if a is None or b is None:
        check(np.all(np.isnan(x[..., i])), lambda: f'{w}: got {x[..., i]} outside the grid, expected missing')
        continue
      sc = scale * max(1.0, max(abs(q[0]) for alt in a for q in alt) * max(abs(q[0]) for alt in b for q in alt))
      outs = value_at(f, [a, b])
      if ti is not None:
        outs = time_free(outs, V[v], [a, b], (-4, -3))
      compare(x[..., i], outs, w, sc)
  ctx.nt(offgrid)
  ctx.label(f"n={case['n']}", f"wrap={case['wrap']}", f"extrap={case['extrap']}", f"m={case['method']}", f'times={times}',
            f"lonorder={case['g']['lonorder']}", f"latorder={case['g']['latorder']}")


@test('P20', cases(), quick=500)
def target_grids(case, ctx):
  """Interpolation to an orthogonal grid (fixed coordinates, or a gridded reference)."""
  variables = [f'v{i}' for i in range(case['nv'])]
  das, V, dims, coords = field(case, variables, times=case['dims'] == 'auto')
  times = 'init_time' in coords
  lat, lon = coords['latitude'].astype(float), coords['longitude'].astype(float)
  r = gen.rng(case['tseed'])
  ty = targets_1d(r, lat, case['ny'], False, False, case['kinds'])
  tx = targets_1d(r, lon, case['nx'], case['g']['circle'], case['wrap'], case['kinds'])
  which = ['latitude', 'longitude'] if r.integers(4) else [['latitude'], ['longitude']][r.integers(2)]
  kw = dict(wrap_longitude=case['wrap'], extrapolate_out_of_bounds=case['extrap'])
  src = xr.Dataset(das) if case['ds'] else das
  if case['dims'] == 'explicit' or len(np.unique(ty)) < len(ty) or len(np.unique(tx)) < len(tx):
    tc = {d: {'latitude': ty, 'longitude': tx}[d] for d in which}
    if r.integers(2):
      tc = {d: xr.DataArray(x, dims=[d], coords={d: x}) for d, x in tc.items()}
    it = itp.InterpolateToFixedCoords(case['method'], tc, **kw)
    got = it.interpolate(src, None if r.integers(2) else {v: None for v in variables} if not case['ds'] else None)
    kind = 'fixed'
  else:
    c = {d: {'latitude': ty, 'longitude': tx}[d] for d in which}
    if times:
      c.update(init_time=coords['init_time'], lead_time=coords['lead_time'])
    ref = xr.DataArray(np.zeros([len(x) for x in c.values()]), dims=list(c), coords=c)
    it = itp.InterpolateToReferenceCoords(case['method'], **kw)
    got = it.interpolate(src, {v: ref for v in variables})
    kind = 'reference'
  keep = [d for d in dims if d not in ('latitude', 'longitude')]
  ctx.nt(any(y not in lat for y in ty) or any(x not in lon for x in tx))
  ctx.label('kind=' + kind, f"wrap={case['wrap']}", f"extrap={case['extrap']}", f"m={case['method']}", f'which={len(which)}', f'times={times}')
  for v in variables:
    g = got[v]
    check(set(g.dims) == set(dims), f'dims {g.dims}')
    Y = ty if 'latitude' in which else lat
    X = tx if 'longitude' in which else lon
    for d, e in (('latitude', Y), ('longitude', X)):
      if d == 'longitude' and d not in which and case['wrap']:
        g = g.sel(longitude=xr.DataArray(coords['longitude'], dims='longitude'))  # padded columns may remain
      same_np(g[d].values.astype(float), e, f'coordinate {d}', rtol=1e-6, atol=1e-6)
    for d in keep:
      if d in coords:
        same_np(g[d].values, np.array(coords[d]), f'coordinate {d}')
    z = g.transpose(*dims).values
    scale = np.nanmax(np.abs(V[v]), initial=1.0)
    for i, y in enumerate(Y):
      for j, x in enumerate(X):
        a = axis_weights(lat, y, case['method'], False, case['extrap']) if 'latitude' in which else [[(1.0, i)]]
        b = axis_weights(lon, x, case['method'], case['wrap'], case['extrap']) if 'longitude' in which else [[(1.0, j)]]
        w = (f"{kind} {case['method']} at lat={y} lon={x} (grid lat {list(lat)}, lon {list(lon)}, wrap={case['wrap']}, "
             f"extrapolate={case['extrap']}, interpolated {which})")
        q = z[..., i, j]
        if a is None or b is None:
          check(np.all(np.isnan(q)), lambda: f'{w}: got {q} outside the grid, expected missing')
          continue
        sc = scale * max(1.0, max(abs(t[0]) for alt in a for t in alt) * max(abs(t[0]) for alt in b for t in alt))
        outs = value_at(V[v], [a, b])
        if times:
          outs = time_free(outs, V[v], [a, b], (-4, -3), keepdims=True)
        compare(q, outs, w, sc)


@test('P20', cases(), quick=250)
def clipped_reference(case, ctx):
  """clip_reference_coords restricts the targets to the extent of the data."""
  case = dict(case, wrap=False, nv=1, extra=0, nt=None, spec=dict(case['spec'], nan=0.0))
  das, V, dims, coords = field(case, ['v0'])
  lat, lon = coords['latitude'].astype(float), coords['longitude'].astype(float)
  r = gen.rng(case['tseed'])
  ty = np.unique(targets_1d(r, lat, case['ny'] + 1, False, False, ['grid', 'between', 'out']))
  tx = np.unique(targets_1d(r, lon, case['nx'] + 1, False, False, ['grid', 'between', 'out']))
  if case['ds']:
    ty = ty[::-1]
  ref = xr.DataArray(np.zeros((len(ty), len(tx))), dims=['latitude', 'longitude'], coords=dict(latitude=ty, longitude=tx))
  clip = [['latitude'], ['longitude'], ['latitude', 'longitude']][case['tseed'] % 3]
  it = itp.InterpolateToReferenceCoords(case['method'], clip_reference_coords=clip, extrapolate_out_of_bounds=True)
  inside = lambda t, xs: t[(t >= xs.min()) & (t <= xs.max())]
  Y = inside(ty, lat) if 'latitude' in clip else ty
  X = inside(tx, lon) if 'longitude' in clip else tx
  ctx.nt(len(Y) < len(ty) or len(X) < len(tx))
  ctx.label(f'empty={not (len(Y) and len(X))}', f"desc={case['ds']}")
  g = it.interpolate({'v0': das['v0']}, {'v0': ref})['v0']
  same_np(g['latitude'].values, Y, f'clipped latitudes (of {list(ty)} to grid {list(lat)})')
  same_np(g['longitude'].values, X, f'clipped longitudes (of {list(tx)} to grid {list(lon)})')
  z = g.transpose('latitude', 'longitude').values
  for i, y in enumerate(Y):
    for j, x in enumerate(X):
      a, b = axis_weights(lat, y, case['method'], False, True), axis_weights(lon, x, case['method'], False, True)
      sc = np.abs(V['v0']).max() * max(1.0, max(abs(t[0]) for alt in a for t in alt) * max(abs(t[0]) for alt in b for t in alt))
      compare(z[i, j], value_at(V['v0'], [a, b]), f'lat={y} lon={x}', max(1.0, sc))


@st.composite
def alt_cases(draw):
  c = draw(cases())
  return dict(c, wrap=False, method='linear', var=draw(st.sampled_from(['2m_temperature', '10m_wind_speed', 'other'])),
              diffs=draw(st.lists(st.sampled_from([0.0, 50.0, -50.0, 99.0, 100.0, 101.0, 300.0, -300.0, 1099.0, 1100.0, 1101.0, 1499.0, -1499.0, 1501.0, -1501.0, 4000.0, float('nan')]), min_size=c['n'], max_size=c['n'])),
              mx=draw(st.sampled_from([None, None, 200.0, 3000.0])), eperm=draw(st.booleans()))


@test('P20', alt_cases(), quick=350)
def altitude_adjustment(case, ctx):
  """Temperature: -6.5 K/km; wind: 1 + 0.002 (dz - 100) between 100 and 1100 m, 3 above; none beyond the limit."""
  case = dict(case, spec=dict(case['spec'], nan=0.0), nt=None)
  das, V, dims, coords = field(case, [case['var']])
  lat, lon = coords['latitude'].astype(float), coords['longitude'].astype(float)
  v = case['var']
  r = gen.rng(case['tseed'])
  n = case['n']
  ty = targets_1d(r, lat, n, False, False, ['grid', 'between', 'edge'])
  tx = targets_1d(r, lon, n, False, False, ['grid', 'between', 'edge'])
  E = r.integers(0, 2000, size=(len(lat), len(lon))).astype(float)
  elev = np.zeros(n)
  for i in range(n):
    a, b = axis_weights(lat, ty[i], 'linear', False, True), axis_weights(lon, tx[i], 'linear', False, True)
    elev[i] = value_at(E, [a, b])[0][0] + case['diffs'][i]
  ref = xr.DataArray(np.zeros(n), dims='index', coords=dict(latitude=('index', ty), longitude=('index', tx), elevation=('index', elev)), name=v)
  ge = xr.DataArray(E, dims=['latitude', 'longitude'], coords=dict(latitude=coords['latitude'], longitude=coords['longitude']))
  if case['eperm']:
    ge = ge.transpose()
  kw = {} if case['mx'] is None else dict(max_alititude_diff_in_m=case['mx'])
  it = itp.GridToSparseWithAltitudeAdjustment('linear', ge, **kw)
  before = das[v].copy(deep=True)
  gb = ge.copy(deep=True)
  got = it.interpolate(das, {v: ref})[v]
  again = it.interpolate(das, {v: ref})[v]
  check(das[v].equals(before), 'the input field was modified')
  check(ge.equals(gb), 'the grid elevation was modified')
  keep = [d for d in dims if d in ('number', 'level')]
  x = got.transpose(*keep, 'index').values
  same_np(again.transpose(*keep, 'index').values, x, 'second evaluation')
  check(x.shape[-1] == n, 'number of targets')
  mx = case['mx'] or 1500.0
  ctx.nt(n > 0 and v != 'other' and any(d != 0 for d in case['diffs']))
  ctx.label('var=' + v, f'n={n}')
  for i in range(n):
    a, b = axis_weights(lat, ty[i], 'linear', False, True), axis_weights(lon, tx[i], 'linear', False, True)
    e = value_at(V[v], [a, b])[0][0]
    d = case['diffs'][i]
    if np.isnan(d) or abs(d) >= mx:
      d = 0.0
    if v == '2m_temperature':
      e = e - 0.0065 * d
    elif v == '10m_wind_speed':
      e = e * (1.0 if d < 100 else 3.0 if d >= 1100 else 1 + 0.002 * (d - 100))
    if not np.allclose(x[..., i], e, rtol=1e-4, atol=1e-4 * max(1, np.abs(V[v]).max())):
      fail(f'{v} at elevation difference {case["diffs"][i]} m (limit {mx}): got {x[..., i]}, expected {e}')
    same_np(got['elevation'].values, elev, 'station elevation')


@st.composite
def crop_cases(draw):
  c = draw(cases())
  la, lo = sorted(c['g']['lat']), sorted(c['g']['lon'])
  pick = lambda xs: draw(st.one_of(st.sampled_from(xs), st.floats(xs[0] - 5, xs[-1] + 5).map(lambda f: round(f, 2))))
  a, b = sorted([pick(la), pick(la)])
  x, y = sorted([pick(lo), pick(lo)])
  return dict(c, box=[a, b, x, y], strides=draw(st.integers(1, 4)), sdims=draw(st.sampled_from([['latitude'], ['latitude', 'longitude'], ['missing', 'longitude'], ['number'], []])))


@test('P20', crop_cases(), quick=350)
def crop_and_subsample(case, ctx):
  variables = [f'v{i}' for i in range(case['nv'])]
  case = dict(case, g=dict(case['g'], f32=False))
  das, V, dims, coords = field(case, variables)
  lat, lon = coords['latitude'], coords['longitude']
  la0, la1, lo0, lo1 = case['box']
  src = xr.Dataset(das) if case['ds'] else das
  got = itp.CropToBox(la0, la1, lo0, lo1).interpolate(src)
  iy = [i for i in np.argsort(lat) if la0 <= lat[i] <= la1]
  gx = set()
  for v in variables:
    g = got[v]
    gx = list(g['longitude'].values)
    must = [x for x in np.sort(lon) if lo0 < x < lo1]
    may = [x for x in np.sort(lon) if lo0 <= x <= lo1]
    check([x for x in gx if x in must] == must and all(x in may for x in gx) and len(set(gx)) == len(gx), lambda: f'longitudes {gx} for box {case["box"]} of {list(lon)}')
    same_np(g['latitude'].values, lat[iy], f'latitudes in [{la0}, {la1}]')
    ix = [list(lon).index(x) for x in gx]
    same_np(g.transpose(*dims).values, V[v][..., iy, :][..., ix], 'cropped values')
  ctx.nt(0 < len(iy) * len(gx) < len(lat) * len(lon))
  s = case['strides']
  sub = itp.Subsample(case['sdims'], s).interpolate(src)
  for v in variables:
    e = xr.DataArray(V[v], dims=dims, coords=coords)
    for d in case['sdims']:
      if d in dims:
        e = e.isel({d: list(range(0, e.sizes[d], s))})
    same_da(sub[v], e, f"subsample {case['sdims']} by {s}")
  # In sequence.
  both = itp.MultipleInterpolation([itp.CropToBox(la0, la1, lo0, lo1), itp.Subsample(case['sdims'], s)]).interpolate(src)
  for v in variables:
    e = itp.Subsample(case['sdims'], s).interpolate({v: got[v]})[v]
    same_da(both[v], e, 'crop then subsample')
  expect_raises(lambda: itp.CropToBox(1, 0, 0, 1), ValueError, 'inverted latitudes')
  expect_raises(lambda: itp.CropToBox(0, 1, 1, 0), ValueError, 'inverted longitudes')
  expect_raises(lambda: itp.Subsample(['latitude'], 0), ValueError, 'stride 0')


@test('P20', cases(), quick=250)
def neighbourhood_probabilities(case, ctx):
  """Fraction of the points of the square neighbourhood exceeding each threshold."""
  from checks.p19_spatial import brute_nd
  variables = [f'v{i}' for i in range(case['nv'])]
  case = dict(case, spec=dict(case['spec'], kind='int'))
  das, V, dims, coords = field(case, variables)
  ny, nx = len(coords['latitude']), len(coords['longitude'])
  sizes = [n for n in (3, 1, 5, 7) if n <= (nx if case['wrap'] else 7)][:1 + case['n'] % 4]
  thr = [0.0, 1.0, -2.0][:1 + case['ny'] % 3]
  src = xr.Dataset(das) if case['ds'] else das
  got = itp.NeighborhoodThresholdProbabilities(sizes, thr, wrap_longitude=case['wrap']).interpolate(src)
  ctx.nt(any(1 < n <= min(nx, ny) for n in sizes))
  for v in variables:
    e = np.zeros((len(sizes), len(thr)) + V[v].shape)
    for i, n in enumerate(sizes):
      for j, q in enumerate(thr):
        b = np.where(np.isnan(V[v]), np.nan, (V[v] > q) * 1.0)
        e[i, j] = brute_nd(b, n, case['wrap'])[0]
    ed = xr.DataArray(e, dims=['smoothing_neighborhood', 'threshold_value'] + dims, coords=dict(coords, smoothing_neighborhood=sizes, threshold_value=thr))
    same_da(got[v], ed, f"probabilities sizes={sizes} thresholds={thr} wrap={case['wrap']}", rtol=1e-5, atol=1e-5)


@test('P20', cases(), quick=250)
def chained_interpolations_apply_in_order(case, ctx):
  """A linear resampling to a coarser grid, then to stations, equals doing both by hand."""
  case = dict(case, wrap=False, nv=1, nt=None, method='linear', spec=dict(case['spec'], nan=0.0), n=max(1, case['n']))
  das, V, dims, coords = field(case, ['v0'])
  lat, lon = coords['latitude'].astype(float), coords['longitude'].astype(float)
  r = gen.rng(case['tseed'])
  gy = np.unique(targets_1d(r, lat, 3, False, False, ['grid', 'between', 'edge']))
  gx = np.unique(targets_1d(r, lon, 3, False, False, ['grid', 'between', 'edge']))
  if len(gy) < 2 or len(gx) < 2:
    gy, gx = np.sort(lat)[[0, -1]], np.sort(lon)[[0, -1]]
  W = np.zeros(V['v0'].shape[:-2] + (len(gy), len(gx)))
  for i, y in enumerate(gy):
    for j, x in enumerate(gx):
      W[..., i, j] = value_at(V['v0'], [axis_weights(lat, y, 'linear', False, True), axis_weights(lon, x, 'linear', False, True)])[0][0]
  ty = targets_1d(r, gy, case['n'], False, False, ['grid', 'between', 'edge'])
  tx = targets_1d(r, gx, case['n'], False, False, ['grid', 'between', 'edge'])
  ref = xr.DataArray(np.zeros(case['n']), dims='index', coords=dict(latitude=('index', ty), longitude=('index', tx)))
  m = itp.MultipleInterpolation([itp.InterpolateToFixedCoords('linear', dict(latitude=gy, longitude=gx)),
                                 itp.InterpolateToReferenceCoords('linear')])
  got = m.interpolate({'v0': das['v0']}, {'v0': ref})['v0']
  keep = [d for d in dims if d in ('number', 'level')]
  x = got.transpose(*keep, 'index').values
  ctx.nt(len(gy) < len(lat) or len(gx) < len(lon))
  sc = max(1.0, np.abs(V['v0']).max())
  for i in range(case['n']):
    e = value_at(W, [axis_weights(gy, ty[i], 'linear', False, True), axis_weights(gx, tx[i], 'linear', False, True)])
    compare(x[..., i], e, f'coarse grid {list(gy)} x {list(gx)}, station {ty[i]}, {tx[i]}', sc)
