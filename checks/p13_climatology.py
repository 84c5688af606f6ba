"""P13: climatology is matched by valid time; anomaly scores equal their formulas."""
import datetime

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import categorical, deterministic as det

RULE = ('forecasts on (init, lead) or valid_time dims or pointwise valid_time coordinates, times across year ends, leap '
        'days and day boundaries, climatologies by date / day-of-year / day-of-year+hour in random order of entries '
        'and dims; non-trivial = at least two different climatology entries are needed')
ASSUMPTIONS = ['the climatology has an entry for every needed valid time and every predicted variable',
               'the heavy-precipitation threshold exceeds the dry threshold (so categories partition)']

BASES = ['2020-02-27', '2019-12-30', '2020-12-30', '2019-02-27', '2020-06-01', '2023-12-31']


@st.composite
def time_layout(draw):
  lay = draw(st.sampled_from(['init_lead', 'init_lead', 'valid_dim', 'points', 'valid_coord']))
  base = draw(st.sampled_from(BASES))
  ni, nl = draw(st.integers(1, 4)), draw(st.integers(1, 4))
  inits = sorted(draw(st.lists(st.integers(0, 20), min_size=ni, max_size=ni, unique=True)))
  leads = sorted(draw(st.lists(st.integers(0, 16), min_size=nl, max_size=nl, unique=True)))
  return dict(lay=lay, base=base, inits=[6 * i for i in inits], leads=[6 * i for i in leads],
              iperm=draw(st.permutations(range(ni))))


@st.composite
def cases(draw):
  tl = draw(time_layout())
  nv = draw(st.integers(1, 2))
  return dict(t=tl, nv=nv, form=draw(st.sampled_from(['time', 'dayofyear', 'dayofyear_hour', 'dayofyear_hour'])),
              cseed=draw(gen.seeds), shuffle=draw(st.booleans()), nlat=draw(st.integers(1, 3)), nlon=draw(st.integers(1, 2)),
              pspec=draw(gen.array_spec(('normal', 'int'), nan=(0.0, 0.2))),
              tspec=draw(gen.array_spec(('normal', 'int'), nan=(0.0, 0.2))),
              order=draw(st.permutations([0, 1, 2, 3])), corder=draw(st.permutations([0, 1, 2])),
              latflip=draw(st.booleans()), cextra=draw(st.booleans()), cspace=draw(st.sampled_from(['full', 'lat', 'none'])),
              reduce=draw(st.sampled_from(['all', 'time', 'space'])))


def layout(case):
  """-> (sample dims, coords, valid times as ndarray over sample dims)."""
  t = case['t']
  ini = gen.h2dt([t['inits'][i] for i in t['iperm']], t['base'])
  led = gen.h2td(t['leads'])
  vt = ini[:, None] + led[None, :]
  if t['lay'] == 'init_lead':
    return ['init_time', 'lead_time'], {'init_time': ini, 'lead_time': led}, vt
  if t['lay'] == 'valid_coord':
    return (['init_time', 'lead_time'],
            {'init_time': ini, 'lead_time': led, 'valid_time': (('init_time', 'lead_time'), vt)}, vt)
  if t['lay'] == 'valid_dim':
    v = gen.h2dt([t['inits'][i] + t['leads'][0] for i in t['iperm']], t['base'])
    return ['valid_time'], {'valid_time': v}, v
  flat = vt.reshape(-1)
  n = len(flat)
  return (['index'], {'index': np.arange(n), 'init_time': ('index', np.repeat(ini, len(led))),
                      'lead_time': ('index', np.tile(led, len(ini)))}, flat)


def doy(v):
  d = v.astype('datetime64[s]').astype(datetime.datetime)
  return (datetime.date(d.year, d.month, d.day) - datetime.date(d.year, 1, 1)).days + 1, d.hour


def clim_value(case, name, k, ilat, ilon, slot=0):
  """Deterministic value of the climatology entry with key k."""
  return float(gen.rng([case['cseed'], abs(hash_(name)), k[0] % (2 ** 31), k[1], ilat, ilon, slot]).normal())


def hash_(s):
  return sum((i + 1) * ord(ch) for i, ch in enumerate(s))


def key_of(form, v):
  d, h = doy(v)
  if form == 'time':
    return (int(v.astype('datetime64[h]').astype(int)), 0)
  return (d, h) if form == 'dayofyear_hour' else (d, 0)


def climatology(case, vts, names, form, slots=None):
  """Dataset with entries for all needed valid times (+ distractors), shuffled."""
  r = gen.rng([case['cseed'], 7])
  lats, lons = np.linspace(-40, 40, case['nlat']) if case['nlat'] > 1 else np.array([10.0]), np.arange(case['nlon']) * 20.0
  if form == 'time':
    need = sorted({int(v.astype('datetime64[h]').astype(int)) for v in vts})
    keys = sorted(set(need) | {k + 6 for k in need} | {k - 6 for k in need})
    axes = [('time', np.array(keys, 'datetime64[h]').astype('datetime64[ns]'), [(k, 0) for k in keys])]
  else:
    ds = sorted({doy(v)[0] for v in vts} | {1, 59, 60, 61, 365, 366})
    axes = [('dayofyear', np.array(ds), None)]
    hs = [0, 6, 12, 18]
    if form == 'dayofyear_hour':
      axes.append(('hour', np.array(hs), None))
  if case['shuffle']:
    perms = [r.permutation(len(a[1])) for a in axes]
  else:
    perms = [np.arange(len(a[1])) for a in axes]
  labs = [a[1][p] for a, p in zip(axes, perms)]
  ks = []
  if form == 'time':
    ks = np.array([axes[0][2][i] for i in perms[0]], dtype=object).tolist()
    shape = [len(ks)]
    keymap = {(i,): tuple(k) for i, k in enumerate(ks)}
  elif form == 'dayofyear':
    shape = [len(labs[0])]
    keymap = {(i,): (int(d), 0) for i, d in enumerate(labs[0])}
  else:
    shape = [len(labs[0]), len(labs[1])]
    keymap = {(i, j): (int(d), int(h)) for i, d in enumerate(labs[0]) for j, h in enumerate(labs[1])}
  sp = {'full': ['latitude', 'longitude'], 'lat': ['latitude'], 'none': []}[case['cspace']]
  lat_idx = list(range(case['nlat']))[::-1] if case['latflip'] else list(range(case['nlat']))
  out = {}
  for nm in names:
    sshape = [{'latitude': case['nlat'], 'longitude': case['nlon']}[d] for d in sp]
    arr = np.zeros(shape + sshape)
    for pos, k in keymap.items():
      for idx in np.ndindex(*sshape):
        ila = lat_idx[idx[0]] if sp else 0
        ilo = idx[1] if len(sp) > 1 else 0
        arr[pos + idx] = clim_value(case, nm, k, ila, ilo)
    dims = [a[0] for a in axes] + sp
    coords = {a[0]: l for a, l in zip(axes, labs)}
    if sp:
      coords['latitude'] = lats[lat_idx]
    if len(sp) > 1:
      coords['longitude'] = lons
    da = xr.DataArray(arr, dims=dims, coords=coords)
    r2 = gen.rng([case['cseed'], 9])
    out[nm] = da.transpose(*[dims[i] for i in r2.permutation(len(dims))])
  return xr.Dataset(out), lats, lons


def expected_clim(case, vt, name, form):
  """Array over sample dims + (lat, lon)."""
  out = np.zeros(vt.shape + (case['nlat'], case['nlon']))
  for idx in np.ndindex(*vt.shape):
    k = key_of(form, vt[idx])
    for i in range(case['nlat']):
      for j in range(case['nlon']):
        sp = case['cspace']
        out[idx + (i, j)] = clim_value(case, name, k, i if sp != 'none' else 0, j if sp == 'full' else 0)
  return out


def field(case, dims, coords, vt, lats, lons, spec, salt, name):
  full = list(dims) + ['latitude', 'longitude']
  arr = gen.build(vt.shape + (case['nlat'], case['nlon']), spec, salt)
  da = xr.DataArray(arr, dims=full, coords=dict(coords, latitude=lats, longitude=lons), name=name)
  order = [i for i in case['order'] if i < len(full)]
  return da.transpose(*[full[i] for i in order]), arr


@test('P13', cases(), quick=900)
def anomaly_scores(case, ctx):
  dims, coords, vt = layout(case)
  form = case['form']
  if form == 'time' and len({v for v in vt.reshape(-1)}) == 0:
    return
  names = [f'v{i}' for i in range(case['nv'])]
  cl, lats, lons = climatology(case, vt.reshape(-1), names + (['unused'] if case['cextra'] else []), form)
  keys = {key_of(form, v) for v in vt.reshape(-1)}
  ctx.nt(len(keys) >= 2)
  ctx.label('form=' + form, 'layout=' + case['t']['lay'], f'space={case["cspace"]}',
            f"leap={any(k[0] == 366 for k in keys) if form != 'time' else 'na'}",
            f"yearend={len({str(v)[:4] for v in vt.reshape(-1)}) > 1}")
  p, t, P, T, C = {}, {}, {}, {}, {}
  for i, n in enumerate(names):
    p[n], P[n] = field(case, dims, coords, vt, lats, lons, case['pspec'], i, n)
    t[n], T[n] = field(case, dims, {k: v for k, v in coords.items() if k in dims}, vt, lats, lons, case['tspec'], 50 + i, n)
    C[n] = expected_clim(case, vt, n, form)
  if case['t']['lay'] == 'points':
    pass
  fulldims = list(dims) + ['latitude', 'longitude']
  refc = {d: coords[d] for d in dims if not isinstance(coords[d], tuple)} | dict(latitude=lats, longitude=lons)
  exp = {'SquaredPredictionAnomaly': lambda n: (P[n] - C[n]) ** 2,
         'SquaredTargetAnomaly': lambda n: (T[n] - C[n]) ** 2,
         'AnomalyCovariance': lambda n: (P[n] - C[n]) * (T[n] - C[n])}
  for sname, f in exp.items():
    out = getattr(det, sname)(climatology=cl).compute(p, t)
    check(set(out) == set(names), f'{sname}: variables {set(out)}')
    for n in names:
      same_da(out[n], xr.DataArray(f(n), dims=fulldims, coords=refc), f'{sname}[{n}]', sort=True)
  red = {'all': fulldims, 'time': dims, 'space': ['latitude', 'longitude']}[case['reduce']]
  out = aggregation.compute_metric_values_for_single_chunk(
      {'acc': det.ACC(cl), 'act': det.PredictionActivity(cl)}, aggregation.Aggregator(reduce_dims=red), p, t)
  ax = tuple(fulldims.index(d) for d in red)
  for n in names:
    m = {k: f(n).mean(axis=ax) for k, f in exp.items()}
    keep = [d for d in fulldims if d not in red]
    kc = {d: refc[d] for d in keep}
    with np.errstate(all='ignore'):
      acc = m['AnomalyCovariance'] / np.sqrt(m['SquaredPredictionAnomaly']) / np.sqrt(m['SquaredTargetAnomaly'])
    same_da(out[f'acc.{n}'], xr.DataArray(acc, dims=keep, coords=kc), f'ACC {n}', sort=True, rtol=1e-7, atol=1e-7)
    same_da(out[f'act.{n}'], xr.DataArray(np.sqrt(m['SquaredPredictionAnomaly']), dims=keep, coords=kc), f'activity {n}', sort=True, rtol=1e-7, atol=1e-7)
    check(bool((np.abs(out[f'acc.{n}'].fillna(0)) <= 1 + 1e-9).all()), 'ACC outside [-1, 1]')


@test('P13', cases(), quick=200)
def prediction_without_time_rejected(case, ctx):
  ctx.nt()
  names = ['v0']
  dims, coords, vt = layout(case)
  cl, lats, lons = climatology(case, vt.reshape(-1), names, case['form'])
  p = {'v0': xr.DataArray(np.zeros((case['nlat'], case['nlon'])), dims=['latitude', 'longitude'], coords=dict(latitude=lats, longitude=lons))}
  expect_raises(lambda: det.SquaredPredictionAnomaly(cl).compute(p, p), ValueError, 'predictions without any time')


@st.composite
def seeps_cases(draw):
  tl = draw(time_layout())
  tl['lay'] = draw(st.sampled_from(['init_lead', 'valid_coord', 'points']))
  nv = draw(st.integers(1, 2))
  return dict(t=tl, nv=nv, cseed=draw(gen.seeds), shuffle=draw(st.booleans()), nlat=draw(st.integers(1, 3)),
              nlon=draw(st.integers(1, 2)), order=draw(st.permutations([0, 1, 2, 3])), cspace='full', latflip=draw(st.booleans()), pflip=draw(st.sampled_from([0, 0, 1, 2, 3])),
              exact=draw(st.sampled_from([False, False, True])),
              pseed=draw(gen.seeds), nan=draw(st.sampled_from([0.0, 0.2])),
              dry=[draw(st.sampled_from([0.25, 0.5, 1.0])) for _ in range(nv)],
              lo=[draw(st.sampled_from([0.1, 0.3, 0.0])) for _ in range(nv)],
              hi=[draw(st.sampled_from([0.85, 0.6, 1.0])) for _ in range(nv)],
              scalar=draw(st.booleans()), default=draw(st.booleans()),
              mask=draw(st.sampled_from([None, 'p', 't', 'both'])), perfect=draw(st.booleans()))


@test('P13', seeps_cases(), quick=700)
def seeps(case, ctx):
  dims, coords, vt = layout(case)
  nv = case['nv']
  names = [f'v{i}' for i in range(nv)]
  form = 'dayofyear_hour'
  vts = vt.reshape(-1)
  cl, lats, lons = climatology(case, vts, [f'{n}_seeps_threshold' for n in names] + [f'{n}_seeps_dry_fraction' for n in names], form)
  # Thresholds in metres above every dry threshold; dry fractions in (0, 1).
  sq = lambda x: 1.0 / (1.0 + np.exp(-x))
  for n in names:
    cl[f'{n}_seeps_threshold'] = 0.001 * (1.25 + np.floor(4 * sq(cl[f'{n}_seeps_threshold'])))
    base = sq(cl[f'{n}_seeps_dry_fraction'])
    # Vary by place, not just around 0.5.
    place = xr.DataArray(0.4 * np.sin(1 + np.arange(case['nlat'])[:, None] * 2.0 + np.arange(case['nlon'])[None] * 3.0 + case['cseed'] % 7),
                         dims=['latitude', 'longitude'], coords=dict(latitude=lats, longitude=lons))
    cl[f'{n}_seeps_dry_fraction'] = (0.2 * base + 0.4 + place.reindex_like(base.latitude)).clip(0.02, 0.98)
    if case['exact']:  # average dry fractions right on the bounds
      cl[f'{n}_seeps_dry_fraction'] = 0 * base + (place * 0 + 0.25 + 0.25 * gen.rng([case['cseed'], 3]).integers(0, 3, size=place.shape))
  dry, lo, hi = case['dry'], case['lo'], case['hi']
  if case['exact']:
    bounds = {0.1: 0.25, 0.3: 0.5, 0.0: 0.1, 0.85: 0.75, 0.6: 0.5, 1.0: 0.85}
    lo, hi = [bounds[x] for x in lo], [bounds[x] for x in hi]
    ctx.label('dry fraction on the bounds')
  if case['default']:
    dry, lo, hi = [0.25] * nv, [0.1] * nv, [0.85] * nv
    stat = categorical.SEEPS(names, cl)
  elif case['scalar']:
    dry, lo, hi = [dry[0]] * nv, [lo[0]] * nv, [hi[0]] * nv
    stat = categorical.SEEPS(names, cl, dry_threshold_mm=dry[0], min_p1=lo[0], max_p1=hi[0])
  else:
    stat = categorical.SEEPS(names, cl, dry_threshold_mm=dry, min_p1=lo, max_p1=hi)
  ctx.nt(len({key_of(form, v) for v in vts}) > 1)
  ctx.label(f"mask={case['mask']}", f"perfect={case['perfect']}", f"nan={case['nan'] > 0}", 'layout=' + case['t']['lay'])
  r = gen.rng(case['pseed'])
  shape = vt.shape + (case['nlat'], case['nlon'])
  # Values on the boundaries too (thresholds are multiples of 0.25 mm).
  draw_ = lambda: np.where(r.uniform(size=shape) < case['nan'], np.nan, 0.001 * 0.25 * r.integers(0, 26, size=shape))
  fulldims = list(dims) + ['latitude', 'longitude']
  p, t, P, T = {}, {}, {}, {}
  order = [fulldims[i] for i in case['order'] if i < len(fulldims)]
  tcoords = {k: v for k, v in coords.items() if k in dims}
  M = np.ones(shape, bool)
  m = r.uniform(size=shape) < 0.7
  for n in names:
    P[n] = draw_()
    T[n] = P[n] if case['perfect'] else draw_()
    p[n] = xr.DataArray(P[n], dims=fulldims, coords=dict(coords, latitude=lats, longitude=lons)).transpose(*order)
    t[n] = xr.DataArray(T[n], dims=fulldims, coords=dict(tcoords, latitude=lats, longitude=lons))
    mda = xr.DataArray(m, dims=fulldims)
    if case['mask'] in ('p', 'both'):
      p[n] = p[n].assign_coords(mask=mda)
    if case['mask'] in ('t', 'both'):
      t[n] = t[n].assign_coords(mask=mda)
    # Latitudes of forecasts and observations in either order.
    if case['pflip'] & 1:
      p[n] = p[n].isel(latitude=slice(None, None, -1))
    if case['pflip'] & 2:
      t[n] = t[n].isel(latitude=slice(None, None, -1))
  if case['mask'] == 'both':
    expect_raises(lambda: stat.compute(p, t), ValueError, 'masks on both predictions and targets')
    return
  out = stat.compute(p, t)
  check(set(out) == set(names), f'SEEPS variables {set(out)}')
  for i, n in enumerate(names):
    thr = cl[f'{n}_seeps_threshold'].transpose('dayofyear', 'hour', 'latitude', 'longitude').sortby('latitude')
    p1 = cl[f'{n}_seeps_dry_fraction'].transpose('dayofyear', 'hour', 'latitude', 'longitude').sortby('latitude').values.mean(axis=(0, 1))
    dd, hh = list(thr.dayofyear.values), list(thr.hour.values)
    exp = np.full(shape, np.nan)
    for idx in np.ndindex(*shape):
      a, b = P[n][idx], T[n][idx]
      k = key_of(form, vt[idx[:-2]])
      w = thr.values[dd.index(k[0]), hh.index(k[1]), idx[-2], idx[-1]]
      q = p1[idx[-2], idx[-1]]
      if np.isnan(a) or np.isnan(b) or not (lo[i] <= q <= hi[i]):
        continue
      cat = lambda x: 0 if x <= dry[i] / 1000 else (2 if x >= w else 1)
      S = 0.5 * np.array([[0, 1 / (1 - q), 4 / (1 - q)], [1 / q, 0, 3 / (1 - q)], [1 / q + 3 / (2 + q), 3 / (2 + q), 0]])
      exp[idx] = S[cat(a), cat(b)]
    e = xr.DataArray(exp, dims=fulldims, coords=dict(tcoords, latitude=lats, longitude=lons))
    same_da(out[n], e, f'SEEPS[{n}]', sort=True, rtol=1e-7, atol=1e-9)
    ok = np.broadcast_to((p1 >= lo[i]) & (p1 <= hi[i]), shape)
    em = xr.DataArray(ok & m if case['mask'] else ok, dims=fulldims, coords=e.coords)
    gm = out[n].mask
    gm = gm.sortby('latitude').drop_vars([c for c in gm.coords if c not in gm.dims]).broadcast_like(em.drop_vars('zz', errors='ignore'))
    same_da(gm.astype(float), em.astype(float), f'SEEPS mask[{n}]', sort=True)
