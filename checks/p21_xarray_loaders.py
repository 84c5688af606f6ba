"""P21: loaded chunks hold exactly the source data for the requested times."""
import datetime as dtm
import os
import shutil
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import interpolations as itp
from weatherbenchX.data_loaders import base as lbase, xarray_loaders as xl

RULE = ('in-memory, zarr and netCDF forecast, analysis and climatology data sets (shuffled/irregular time axes, levels, missing '
        'values, integer and float dtypes, lat/lon or latitude/longitude names) read through each loader for lists of init and lead '
        'times in any order (also none, slices, leap days, year ends), with variable selection, renaming, selection, pre/post '
        'processing, interpolation, masks and value coordinates; non-trivial = more than one requested pair or an option in use')
ASSUMPTIONS = ['time labels on file are unique', 'requested lists are not empty']
D = np.timedelta64
NS = 'timedelta64[ns]'


def py(t):
  return t.astype('datetime64[s]').item()


@st.composite
def cases(draw):
  kind = draw(st.sampled_from(['pred', 'pred', 'target', 'target', 'clim', 'persist', 'probclim']))
  start = draw(st.sampled_from(['2020-02-27', '2019-12-30', '2020-12-29', '2021-02-27', '2016-06-01']))
  step = draw(st.sampled_from([6, 12, 24]))
  nfile = draw(st.integers(2, 8))
  nl = draw(st.integers(1, 4))
  req = draw(st.lists(st.integers(0, nfile - 1), min_size=1, max_size=4, unique=True))
  leads = draw(st.lists(st.integers(0, nl - 1), min_size=1, max_size=3, unique=True))
  return dict(kind=kind, start=start, step=step, nfile=nfile, nl=nl, req=req, leads=leads,
              mode=draw(st.sampled_from(['list', 'list', 'list', 'none', 'slice'])),
              shuffle=draw(st.booleans()), spec=draw(gen.array_spec(('normal', 'int'), nan=(0.0, 0.15), dtype=('float32', 'float64'))),
              nv=draw(st.integers(1, 3)), pick=draw(st.sampled_from([None, 'first', 'rev'])), rename=draw(st.booleans()),
              level=draw(st.booleans()), sel=draw(st.sampled_from([None, 'level', 'level_list', 'lat_slice'])),
              latlon=draw(st.booleans()), pre=draw(st.booleans()), proc=draw(st.booleans()), sub=draw(st.booleans()),
              mask=draw(st.booleans()), vals=draw(st.booleans()), compute=draw(st.booleans()),
              src=draw(st.sampled_from(['ds', 'ds', 'ds', 'ds', 'zarr', 'nc'])), unit=draw(st.sampled_from(['ns', 'h'])),
              perm=draw(st.permutations(range(5))), ecmwf=draw(st.sampled_from(['ecmwf', 'map', 'none'])), twice=draw(st.booleans()),
              hours=draw(st.sampled_from([True, True, False])), intvar=draw(st.booleans()))


def time_axis(case):
  n, r = case['nfile'], gen.rng(case['spec']['seed'])
  t = gen.h2dt(np.arange(n) * case['step'], case['start'])
  return t[r.permutation(n)] if case['shuffle'] else t


def make(case):
  """Source data set, lookup function value(var, init, lead) -> array over the space dims, and space dims."""
  r = gen.rng(case['spec']['seed'] + 1)
  k = case['kind']
  lat, lon = np.array([-30.0, 0.0, 30.0]), np.array([0.0, 90.0])
  ln, lo = ('lat', 'lon') if case['latlon'] else ('latitude', 'longitude')
  sdims, ssh, sc = [], [], {}
  if case['level']:
    sdims, ssh, sc = ['level'], [2], {'level': [500, 850]}
  sdims = sdims + [ln, lo]
  ssh = ssh + [3, 2]
  sc.update({ln: lat, lo: lon})
  names = [f'raw{i}' for i in range(case['nv'])]
  tn = {'ecmwf': 'time', 'map': 'mytime', 'none': None}[case['ecmwf']]
  leads = gen.h2td(np.arange(case['nl']) * 12.0)
  t = time_axis(case)
  if k == 'pred':
    tdims = [tn or 'init_time', {'ecmwf': 'prediction_timedelta', 'map': 'step', 'none': 'lead_time'}[case['ecmwf']]]
    lf = leads[r.permutation(len(leads))] if case['shuffle'] else leads
    tc = {tdims[0]: t, tdims[1]: lf}
    tsh = [len(t), len(lf)]
  elif k in ('target', 'persist'):
    # Every valid time that can be asked for.
    vt = np.unique(np.concatenate([t] + [t + l for l in leads]))
    if case['shuffle']:
      vt = vt[r.permutation(len(vt))]
    tdims, tc, tsh = [tn or 'valid_time'], {tn or 'valid_time': vt}, [len(vt)]
  elif k == 'probclim':
    y = py(np.datetime64(case['start'])).year
    vt = np.arange(np.datetime64(f'{y - 3}-01-01'), np.datetime64(f'{y + 1}-01-03'), D(6, 'h'), dtype='datetime64[ns]')
    tdims, tc, tsh = [tn or 'valid_time'], {tn or 'valid_time': vt}, [len(vt)]
  else:
    tdims = ['dayofyear', 'hour'] if case['hours'] else ['dayofyear']
    doy = np.arange(1, 367)
    hr = np.array([0, 6, 12, 18])
    if case['shuffle']:
      doy, hr = r.permutation(doy), r.permutation(hr)
    tc = {'dayofyear': doy, 'hour': hr} if case['hours'] else {'dayofyear': doy}
    tsh = [366, 4] if case['hours'] else [366]
  dims = tdims + sdims
  coords = {**tc, **sc}
  V = {}
  data = {}
  for i, v in enumerate(names):
    x = gen.build(tsh + ssh, case['spec'], i)
    if case['intvar'] and i == 1:
      x = r.integers(-5, 9, size=tsh + ssh).astype('int32')
    V[v] = x
    p = [dims[j] for j in case['perm'] if j < len(dims)]
    data[v] = xr.DataArray(x, dims=dims, coords=coords).transpose(*p, *[d for d in dims if d not in p])
  ds = xr.Dataset(data)
  if k != 'pred' and k != 'clim' and False:
    pass
  index = {d: {x: i for i, x in enumerate(tc[d])} for d in tc}
  return ds, V, names, index, sdims, sc, t, leads


def lookup(case, V, v, index, init, lead):
  k = case['kind']
  keys = list(index)
  x = V[v]
  if k == 'pred':
    return x[index[keys[0]][init], index[keys[1]][lead]]
  vt = init + lead if lead is not None else init
  if k == 'target':
    return x[index[keys[0]][vt]]
  if k == 'persist':
    return x[index[keys[0]][init]]
  p = py(vt)
  doy = p.timetuple().tm_yday
  if k == 'clim':
    i = index['dayofyear'][doy]
    return x[i, index['hour'][p.hour]] if case['hours'] else x[i]
  y = py(np.datetime64(case['start'])).year
  out = []
  for year in range(y - 3, y):
    q = dtm.datetime(year, 1, 1) + dtm.timedelta(days=doy - 1, hours=p.hour)
    out.append(x[index[keys[0]][np.datetime64(q, 'ns')]])
  return np.array(out)


def loader(case, ds, path):
  k = case['kind']
  kw = {}
  names = {v: f'new{v[3:]}' for v in ds.data_vars} if case['rename'] else {v: v for v in ds.data_vars}
  if case['rename']:
    kw['rename_variables'] = names
  final = list(names.values())
  if case['pick'] == 'first':
    final = final[:1]
  elif case['pick'] == 'rev':
    final = final[::-1]
  if case['pick']:
    kw['variables'] = final if case['twice'] else tuple(final)
  sel = case['sel']
  if sel and sel.startswith('level') and not case['level']:
    sel = None
  if sel == 'level':
    kw['sel_kwargs'] = {'level': 850}
  elif sel == 'level_list':
    kw['sel_kwargs'] = {'level': [850, 500]}
  elif sel == 'lat_slice':
    kw['sel_kwargs'] = {'latitude': slice(-10, 40)}
  calls = []
  if case['pre']:
    def pre(d):
      calls.append(1)
      return d * 2
    kw['preprocessing_fn'] = pre
  if case['proc']:
    kw['process_chunk_fn'] = lambda c: {v: c[v] + 1 for v in c} if case['twice'] else c + 1
  if case['sub']:
    kw['interpolation'] = itp.Subsample(['longitude'], 2)
  if k != 'clim':
    if case['ecmwf'] == 'map':
      kw['rename_dimensions'] = {'mytime': 'init_time', 'step': 'lead_time'} if k == 'pred' else {'mytime': 'valid_time'}
    elif case['ecmwf'] == 'none':
      kw['rename_dimensions'] = None
  else:
    kw['climatology_time_coords'] = ('dayofyear', 'hour') if case['hours'] else ['dayofyear']
  kw.update(add_nan_mask=case['mask'], add_values_to_coords=case['vals'], compute=case['compute'])
  if k == 'probclim':
    y = py(np.datetime64(case['start'])).year
    kw.update(start_year=y - 3, end_year=y - 1, ensemble_dim='member' if case['twice'] else 'number')
  cls = dict(pred=xl.PredictionsFromXarray, target=xl.TargetsFromXarray, clim=xl.ClimatologyFromXarray,
             persist=xl.PersistenceFromXarray, probclim=xl.ProbabilisticClimatologyFromXarray)[k]
  src = dict(path=path) if path else dict(ds=ds)
  return cls(**src, **kw), names, final, sel, calls


def one_pair_dims(case):
  return ['member' if case['twice'] else 'number'] if case['kind'] == 'probclim' else []


@test('P21', cases(), quick=1300)
def chunk_holds_the_requested_pairs(case, ctx):
  if case['kind'] == 'probclim':
    case = dict(case, level=False)
  ds, V, names, index, sdims, sc, t, leads = make(case)
  k, mode = case['kind'], case['mode']
  tmp = None
  try:
    path = None
    if case['src'] != 'ds':
      tmp = tempfile.mkdtemp(prefix='wbxv_p21_')
      path = os.path.join(tmp, 'data.zarr' if case['src'] == 'zarr' else 'data.nc')
      if case['src'] == 'zarr':
        ds.to_zarr(path)
        path = path + ('/' if case['twice'] else '')
      else:
        ds.to_netcdf(path, engine='scipy')
    ld, newname, final, sel, calls = loader(case, ds, path)
    _check(case, ctx, ld, newname, final, sel, calls, ds, V, index, sdims, sc, t, leads)
  finally:
    if tmp:
      shutil.rmtree(tmp)


def _check(case, ctx, ld, newname, final, sel, calls, ds, V, index, sdims, sc, t, leads):
  k, mode = case['kind'], case['mode']
  ts = np.sort(t)
  init = ts[case['req']].astype('datetime64[ns]')
  lead = leads[case['leads']]
  before = ds.copy(deep=True)
  if mode == 'slice':
    a, b = sorted([lead[0], lead[-1]])
    sl = slice(a, b)
    if k != 'pred':
      expect_raises(lambda: ld.load_chunk(init, sl), ValueError, f'{k}: lead time slice')
      return
    if case['shuffle']:
      return  # a label slice of an unsorted axis is not defined
    arg, lead = sl, leads[(leads >= a) & (leads <= b)]
  elif mode == 'none':
    if k in ('persist', 'probclim'):
      expect_raises(lambda: ld.load_chunk(init), ValueError, f'{k}: no lead times')
      return
    arg = None
    lead = None if k != 'pred' else np.array(list(index[list(index)[1]]))
  else:
    arg = lead.astype('timedelta64[h]') if case['unit'] == 'h' else lead
  for rep in range(2 if case['twice'] else 1):
    if rep:
      init = init[::-1]  # another request to the same loader
    chunk = ld.load_chunk(init, arg)
    compare(case, ctx, chunk, newname, final, sel, V, index, sdims, sc, init, lead, f'{k} request {rep}')
  if case['pre']:
    check(len(calls) == 1, f'preprocessing ran {len(calls)} times')
  if case['src'] == 'ds':
    check(ds.identical(before), 'the source data set was modified')
  n = len(init) * (1 if lead is None else len(lead))
  opts = [o for o in ('pre', 'proc', 'sub', 'mask', 'vals', 'rename') if case[o]] + ([sel] if sel else [])
  ctx.nt(n > 1 or bool(opts))
  ctx.label('kind=' + k, 'mode=' + mode, 'src=' + case['src'], 'names=' + case['ecmwf'], *[f'opt={o}' for o in opts])
  # Times that are not on file are never silently replaced.
  missing = np.array([ts[0] + D(1, 'h').astype(NS)])
  if k in ('pred', 'target', 'persist'):
    expect_raises(lambda: ld.load_chunk(missing, arg), KeyError, f'{k}: an initialization time not on file')
  if k == 'pred' and mode == 'list':
    expect_raises(lambda: ld.load_chunk(init, np.array([7], 'timedelta64[h]').astype(NS)), KeyError, 'a lead time not on file')


def compare(case, ctx, chunk, newname, final, sel, V, index, sdims, sc, init, lead, what):
  k = case['kind']
  check(list(map(str, chunk)) == list(final) if case['pick'] else set(chunk) == set(final), lambda: f'{what}: variables {list(chunk)}, expected {final}')
  raw = {b: a for a, b in newname.items()}
  tname = 'valid_time' if (k == 'target' and lead is None) else 'init_time'
  tdims = [tname] + ([] if lead is None else ['lead_time'])
  sd = [{'lat': 'latitude', 'lon': 'longitude'}.get(d, d) for d in sdims]
  scoord = {('latitude' if d == 'lat' else 'longitude' if d == 'lon' else d): np.array(c) for d, c in sc.items()}
  for v in final:
    da = chunk[v]
    x = np.array([[lookup(case, V, raw[v], index, i, l) for l in (lead if lead is not None else [None])] for i in init])
    if lead is None:
      x = x[:, 0]
    dims = tdims + one_pair_dims(case) + sd
    e = xr.DataArray(x, dims=dims, coords={**{d: scoord[d] for d in sd}, tname: init, **({'lead_time': lead} if lead is not None else {})})
    if case['pre']:
      e = e * 2
    if sel == 'level':
      e = e.isel(level=1, drop=True)
    elif sel == 'level_list':
      e = e.isel(level=[1, 0])
    elif sel == 'lat_slice':
      e = e.isel(latitude=[1, 2])
    if case['proc']:
      e = e + 1
    if case['sub']:
      e = e.isel(longitude=[0])
    if set(da.dims) != set(e.dims):
      fail(f'{what}: dims {da.dims}, expected {e.dims}')
    da = da.transpose(*e.dims)
    for d in e.dims:
      if d in e.coords:
        check(d in da.coords, f'{what}: no labels of {d}')
        same_np(da[d].values, e[d].values, f'{what}: labels of {d}')
    if k == 'probclim':
      same_np(da[one_pair_dims(case)[0]].values, np.arange(3), f'{what}: member labels')
    same_np(da.values, e.values, f'{what}: {v}', rtol=1e-6, atol=1e-6)
    if not (case['pre'] or case['proc']):
      check(da.dtype == V[raw[v]].dtype, lambda: f'{what}: dtype {da.dtype}, source {V[raw[v]].dtype}')
      same_np(np.asarray(da.values, 'float64'), e.values, f'{what}: {v}', rtol=0, atol=0)
    if sel == 'level':
      check(int(da['level']) == 850, f'{what}: level label')
    if case['mask']:
      same_np(da['mask'].broadcast_like(da).transpose(*e.dims).values, ~np.isnan(e.values), f'{what}: mask of {v}')
      check(da['mask'].dtype == bool, f'{what}: mask dtype')
    else:
      check('mask' not in da.coords, f'{what}: unexpected mask')
    if case['vals']:
      same_np(da['values_as_coord'].broadcast_like(da).transpose(*e.dims).values, e.values, f'{what}: values of {v} as coordinate', rtol=1e-6, atol=1e-6)
    else:
      check('values_as_coord' not in da.coords, f'{what}: unexpected value coordinate')
    if 'valid_time' in da.coords and lead is not None and k == 'target':
      same_np(da['valid_time'].transpose('init_time', 'lead_time').values, init[:, None] + lead[None], f'{what}: valid_time')


@st.composite
def mask_cases(draw):
  return dict(spec=draw(gen.array_spec(('normal', 'int'), nan=(0.0, 0.3))), nv=draw(st.integers(1, 3)),
              sub=draw(st.one_of(st.none(), st.lists(st.integers(0, 3), max_size=2, unique=True))), ds=draw(st.booleans()))


@test('P21', mask_cases(), quick=250)
def nan_masks(case, ctx):
  """A mask marks exactly the missing values, for the chosen variables only, and changes nothing else."""
  data = {f'v{i}': xr.DataArray(gen.build((3, 2), case['spec'], i), dims=['a', 'b'], coords={'a': [1, 2, 3]}) for i in range(case['nv'])}
  before = {v: x.copy(deep=True) for v, x in data.items()}
  sub = None if case['sub'] is None else [f'v{i}' for i in case['sub']]
  out = lbase.add_nan_mask_to_data(xr.Dataset(data) if case['ds'] else data, variable_subset=sub)
  check(set(out) == set(data), 'variables')
  ctx.nt(any(np.isnan(x.values).any() for x in data.values()))
  for v in data:
    same_np(out[v].values, before[v].values, f'values of {v}')
    if sub is None or v in sub:
      same_np(out[v]['mask'].values, ~np.isnan(before[v].values), f'mask of {v}')
    else:
      check('mask' not in out[v].coords, f'unexpected mask on {v}')
    check(data[v].identical(before[v]), f'input {v} was modified')
