"""P31: the evaluation scripts report exactly the evaluation that was requested."""
import contextlib
import logging
import os
import shutil
import sys
import tempfile
import types
from unittest import mock
import warnings

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import aggref, chaosbeam, gen, scripts
from wbxv.cmp import check, same_np
from wbxv.core import test
from weatherbenchX import binning
from weatherbenchX.metrics import base as metrics_base
from weatherbenchX.metrics import categorical, deterministic, probabilistic, wrappers

logging.getLogger('apache_beam').setLevel(logging.CRITICAL)

RULE = ('generated flags (times, leads, chunks, year, temporal, levels, variables), data sets (grids, dimension orders, decoys around '
        'the requested period) and configuration; non-trivial = the evaluation covers at least two forecasts')
ASSUMPTIONS = ['data sets follow the WeatherBench 2 layout', 'at least one variable has levels', 'the land-sea mask is binary',
               'hours are multiples of six, as in the climatology']
DAY, HOUR = np.timedelta64(24, 'h'), np.timedelta64(1, 'h')
LEVELS = [500, 600, 700, 850, 925]
UPPER = ['geopotential', 'temperature', 'u_component_of_wind', 'v_component_of_wind', 'wind_speed', 'specific_humidity']
SURFACE = ['2m_temperature', 'mean_sea_level_pressure', '10m_u_component_of_wind', '10m_v_component_of_wind']
PRECIP = ['total_precipitation_6hr', 'total_precipitation_24hr']
REGIONS = {  # name: (south, north, west, east); the documented ECMWF and additional regions
    'global': (-90, 90, 0, 360), 'tropics': (-20, 20, 0, 360), 'northern-hemisphere': (20, 90, 0, 360),
    'southern-hemisphere': (-90, -20, 0, 360), 'europe': (35, 75, -12.5, 42.5), 'north-america': (25, 60, -120, -75),
    'north-atlantic': (25, 65, -70, -10), 'north-pacific': (25, 60, 145, 230), 'east-asia': (25, 60, 102.5, 150),
    'ausnz': (-45, -12.5, 120, 175), 'arctic': (60, 90, 0, 360), 'antarctic': (-90, -60, 0, 360),
    'northern-africa': (5, 32.5, -12.5, 37.5), 'southern-africa': (-30, 5, 12.5, 37.5), 'south-america': (-40, 5, -75, -45),
    'west-asia': (15, 60, 42.5, 102.5), 'south-east-asia': (-12.5, 25, 95, 125)}
GRIDS = {'64x32': (np.arange(-85, 90, 28.3), np.arange(0, 360, 36.0)), '240x121': (np.linspace(-90, 90, 6), np.arange(0, 360, 51.0)),
         '1440x721': (np.array([-58.0, -15.0, 10.0, 28.0, 50.0, 66.0]), np.array([3.0, 15.0, 100.0, 122.0, 148.0, 250.0, 310.0, 350.0]))}


def subset(draw, names, lo, hi):
  return draw(st.lists(st.sampled_from(names), min_size=lo, max_size=hi, unique=True))


def t(s):
  return np.datetime64(s, 'ns')


def tree(x):
  return gen.h2td(x)


@st.composite
def common(draw):
  start = t(draw(st.sampled_from(['2020-01-01', '2020-02-28', '2019-12-30', '2018-06-01']))) + 6 * HOUR * draw(st.integers(0, 4))
  freq = draw(st.sampled_from([None, 6, 12, 24, 36]))
  n = draw(st.sampled_from([2, 1, 3, 4]))
  return dict(start=str(start)[:13], stop=str(start + (n - 1) * HOUR * (freq or 12) + HOUR * draw(st.sampled_from([1, freq or 12, 3])))[:13], freq=freq,
              lead=draw(st.sampled_from([[0, 24, 6], [6, 25, 12], [12, 13, 6], [0, 61, 12], [24, 48, 6]])),
              lead_freq=draw(st.booleans()), ichunk=draw(st.sampled_from([None, 1, 2, 5])), lchunk=draw(st.sampled_from([None, 1, 2, 3, 12])),
              res=draw(st.sampled_from(list(GRIDS))), flip=[draw(st.booleans()) for _ in range(3)], seed=draw(gen.seeds),
              order=draw(st.booleans()), runner=draw(st.sampled_from(['chaos'] * 9 + ['DirectRunner'])))


def requested(case, default_freq=12):
  """Initialization times and lead times (hours) asked for: start included, stop excluded."""
  step = HOUR * (case['freq'] or default_freq)
  init, x = [], t(case['start'])
  while x < t(case['stop']):
    init.append(x)
    x = x + step
  a, b, s = case['lead']
  s = s if case['lead_freq'] else 6
  return np.array(init, 'datetime64[ns]'), np.arange(a, b, s)


class World:
  """Data sets in the WeatherBench 2 layout, addressable by label."""

  def __init__(self, case, tmp):
    self.case, self.tmp, self.n = case, tmp, 0
    self.lat, self.lon = GRIDS[case['res']]

  def write(self, name, ds, flip):
    if flip:
      ds = ds.isel(latitude=slice(None, None, -1))
    path = os.path.join(self.tmp, name + '.zarr')
    ds.to_zarr(path, zarr_format=2, consolidated=True)
    return path

  def array(self, dims, coords, nan=0.0, scale=1.0):
    self.n += 1
    r = gen.rng(self.case['seed'] + self.n)
    coords = {**coords, 'latitude': self.lat, 'longitude': self.lon, 'level': LEVELS}
    shape = [len(coords[d]) for d in dims]
    x = np.abs(r.normal(size=shape)) * scale if scale != 1 else r.normal(size=shape)
    if nan:
      x = np.where(r.uniform(size=shape) < nan, np.nan, x)
    return xr.DataArray(x, dims=dims, coords={d: coords[d] for d in dims})

  def dataset(self, variables, first, coords, nan=0.0):
    """One array per variable over the given leading dims, then level (or not) and the grid."""
    grid = ['longitude', 'latitude'] if self.case['order'] else ['latitude', 'longitude']
    return xr.Dataset({v: self.array(first + (['level'] if v in UPPER else []) + grid, coords, nan, 0.4 if v in PRECIP else 1.0) for v in variables})


def expected_values(metrics, pred, targ, temporal, reduce_dims, lat, lon, land, skipna, regions):
  """Area-weighted means over each region, from arrays assembled by hand."""
  stats = metrics_base.compute_unique_statistics_for_all_metrics(metrics, pred, targ)
  member = {}
  for k, (s, n, w, e) in regions.items():
    inside = np.array([[s <= a <= n and any(w <= o + 360 * j <= e for j in (-1, 0, 1)) for o in lon] for a in lat])
    member[k] = inside
    if land is not None:
      member[k + '_land'] = inside & land
  member = dict(sorted(member.items()))
  m = xr.DataArray(np.array(list(member.values())), dims=['region', 'latitude', 'longitude'],
                   coords=dict(region=list(member), latitude=lat, longitude=lon))
  w = m * xr.DataArray(aggref.area_reference(lat), dims=['latitude'], coords=dict(latitude=lat))
  means = {}
  for name, per in stats.items():
    means[name] = {}
    for v, x in per.items():
      if not set(reduce_dims) <= set(x.dims):
        continue
      x = x.astype(float)
      use = xr.ones_like(x)
      if land is not None and 'mask' in x.coords:
        use = use * x.mask
      if skipna:
        use = use * x.notnull()
      x = x.drop_vars('mask', errors='ignore')
      use = use.drop_vars('mask', errors='ignore')
      with np.errstate(all='ignore'):
        means[name][v] = ((x.where(use > 0, 0) * w).sum(reduce_dims, skipna=False) / (use * w).sum(reduce_dims))
  out = metrics_base.compute_metrics_from_statistics(metrics, means)
  return {f'{k}.{v}': x for k, per in out.items() for v, x in per.items()}


def compare(got, exp, coords):
  check(set(got.data_vars) == set(exp), lambda: f'results {sorted(got.data_vars)} instead of {sorted(exp)}')
  for k, e in exp.items():
    g = got[k]
    check(set(g.dims) == set(e.dims), f'{k}: dims {g.dims} instead of {e.dims}')
    for d in e.dims:
      check(g.indexes[d].is_unique and set(g.indexes[d]) == set(e.indexes[d]), lambda: f'{k}: {d} is {list(g.indexes[d])} instead of {list(e.indexes[d])}')
    g = g.sel({d: e[d] for d in e.dims}).transpose(*e.dims)
    a, b = g.values.astype(float), e.values.astype(float)
    if k.startswith('unbiased'):  # differences of nearly equal numbers, under a root or in a denominator
      a, b = np.where(np.abs(b) > 0.05, a, 0), np.where(np.abs(b) > 0.05, b, 0)
    same_np(a, b, k, rtol=2e-3 if k.startswith('unbiased') else 2e-4, atol=2e-5)


@contextlib.contextmanager
def remembered_masks():
  """Region masks only depend on the grid; they are made once per grid (they are decided under P09) to save most of the time."""
  original = getattr(binning.Regions, 'create_bin_mask', None)
  if original is None:
    yield
    return
  memo = {}

  def create_bin_mask(self, statistic, *a, **k):
    land = getattr(self, '_land_sea_mask', None)
    key = (repr(sorted(self.__dict__.get('_regions', {}).items(), key=str)), statistic.latitude.values.tobytes(), statistic.longitude.values.tobytes(),
           None if land is None else (land.values.tobytes(), land.latitude.values.tobytes()))
    if key not in memo:
      memo[key] = original(self, statistic, *a, **k)
    return memo[key].copy(deep=True)
  with mock.patch.object(binning.Regions, 'create_bin_mask', create_bin_mask):
    yield


def runner_of(case):
  return {'runner': chaosbeam.Chaos(case['seed'])} if case['runner'] == 'chaos' else {'runner': case['runner']}


# ------------------------------------------------------------------ the benchmark script


@st.composite
def benchmark_cases(draw):
  c = draw(common())
  c['kind'] = draw(st.sampled_from(['model', 'model', 'ensemble', 'persistence', 'climatology', 'probabilistic_climatology', 'keisler', 'excarta', 'aurora', 'fuxi', 'baguan']))
  c['target'] = draw(st.sampled_from(['era5', 'hres_t0']))
  c['pvars'] = subset(draw, UPPER, 1, 2) + subset(draw, SURFACE, 0, 1) + subset(draw, PRECIP, 0, 2)
  c['more'] = subset(draw, UPPER + SURFACE + PRECIP, 0, 2)
  c['drop'] = draw(st.booleans())
  c['wind'] = draw(st.sampled_from([None, None, None, 'upper', 'both']))
  c['levels'] = draw(st.sampled_from([None, None, [500], [850, 600], [700, 500]]))
  c['temporal'] = draw(st.booleans())
  c['mode'] = draw(st.sampled_from(['range', 'range', 'year']))
  c['year'] = draw(st.sampled_from(['2020', '2018', '2022']))
  c['year_freq'] = draw(st.sampled_from([1464, 2196, 1092, 12 * 349 * 1, 2916, 1752]))
  c['all_leads'] = draw(st.sampled_from([False, False, True]))
  # Rare combinations that the script treats on their own.
  special = draw(st.sampled_from([None] * 6 + ['aurora', 'baguan', 'fuxi', 'default_leads', 'excarta_default', 'seeps']))
  c['hole'] = draw(st.booleans())
  if special == 'default_leads':
    c.update(kind=draw(st.sampled_from(['persistence', 'climatology'])), all_leads=True, mode='range', freq=None, stop=str(t(c['start']) + HOUR)[:13])
  elif special == 'excarta_default':
    c.update(kind='excarta', mode='range', freq=None, stop=str(t(c['start']) + 36 * HOUR)[:13])
  elif special == 'seeps':
    c.update(kind='model', flip=[c['flip'][0], c['flip'][1], True])
    c['pvars'] = [v for v in c['pvars'] if v not in PRECIP] + PRECIP[:1]
    c['drop'] = False
  elif special:
    c.update(kind=special, mode='year', year={'aurora': '2022', 'baguan': '2020'}.get(special, c['year']))
  if c['kind'] == 'probabilistic_climatology':
    c['pvars'] = c['pvars'][:2]
    c['more'] = c['more'][:1]
  return c


def variables_of(case):
  pv = list(dict.fromkeys(case['pvars'] + ({'upper': UPPER[2:4], 'both': UPPER[2:4] + SURFACE[2:4]}.get(case['wind'], []))))
  tv = list(dict.fromkeys(pv + case['more']))
  if case['drop'] and len(pv) > 1:
    gone = pv[-1]
    tv = [v for v in tv if v != gone or sum(u in UPPER for u in tv) == 1 and v in UPPER]
  return pv, tv[::-1]


@test('P31', benchmark_cases(), quick=96, thorough=4000)
def benchmark_script(case, ctx):
  kind, res = case['kind'], case['res']
  name = kind if kind not in ('model', 'ensemble') else 'mymodel'
  baseline = kind in ('persistence', 'climatology', 'probabilistic_climatology')
  ensemble = kind in ('ensemble', 'probabilistic_climatology')
  year = case['year']
  args = [f'--prediction={name}', f"--target={case['target']}", f'--resolution={res}', f'--year={year}', '--config=wbxv_fake_config']
  if case['mode'] == 'range':
    init, hours = requested(case, 24 if kind == 'excarta' else 12)
    args += [f"--time_start={case['start']}", f"--time_stop={case['stop']}"]
    if case['freq']:
      args.append(f"--time_frequency={case['freq']}")
    span = f"{case['start']}_{case['stop']}"
  else:
    first, stop = t(f'{year}-01-01'), t(f'{int(year) + 1}-01-01')
    if year == '2022' or kind in ('fuxi', 'excarta'):
      stop = t(f'{year}-12-16')
    elif year == '2020' and kind == 'baguan':
      stop = t('2020-12-30T12')
    if year == '2022' and kind == 'aurora':
      first = first + 12 * HOUR
    fine = dict(case, start=str(first), stop=str(stop), freq=case['year_freq'])
    init, hours = requested(fine)
    args.append(f"--time_frequency={case['year_freq']}")
    span = year
  all_leads = case['all_leads'] and not (baseline and len(init) > 1)
  if all_leads:
    if baseline:
      hours = np.arange(0, 361, 6)
  else:
    a, b, s = case['lead']
    args += [f'--lead_time_start={a}', f'--lead_time_stop={b}'] + ([f'--lead_time_frequency={s}'] if case['lead_freq'] else [])
  for flag, k, n in (('init_time_chunk_size', 'ichunk', len(init)), ('lead_time_chunk_size', 'lchunk', len(hours))):
    if case[k] is not None:
      args.append(f'--{flag}={max(case[k], -(-n // 3))}')  # at most three chunks, to bound the cost
  if case['temporal']:
    args.append('--temporal')
  ctx.nt(len(init) * len(hours) > 1)
  ctx.label('kind=' + kind, 'mode=' + case['mode'], 'runner=' + case['runner'], 'temporal' if case['temporal'] else 'all times', 'all leads' if all_leads else 'lead range')

  pv, tv = variables_of(case)
  common_vars = [v for v in sorted(tv) if v in pv]
  common_vars_with_levels = [v for v in common_vars if v in UPPER]
  assert common_vars_with_levels, 'generator: no variable with levels'
  levels = case['levels'] if case['levels'] and not baseline else [500, 700, 850]
  td = gen.h2td(hours)
  valid = init[:, None] + td[None, :]
  decoys = np.concatenate([init - 6 * HOUR, init + 12 * HOUR, init + 24 * HOUR])
  times = np.unique(np.concatenate([valid.ravel(), init, decoys, init[-1:] + 30 * DAY]))
  doy = ((valid - valid.astype('datetime64[Y]')).astype('timedelta64[D]').astype(int) + 1)
  hod = (valid - valid.astype('datetime64[D]')).astype('timedelta64[h]').astype(int)
  tmp = tempfile.mkdtemp(prefix='wbxv_p31_')
  try:
    world = World(case, tmp)
    lat, lon = world.lat, world.lon
    fl = case['flip']
    mod = types.ModuleType('wbxv_fake_config')
    every = list(dict.fromkeys(pv + tv))
    # Target data sets: ERA5 (also the source of persistence, of the ensemble of years and of the land-sea mask) and another one.
    past = np.array([], 'datetime64[ns]')
    if kind == 'probabilistic_climatology':
      past = np.array([[t(f'{y}-01-01') + (int(d) - 1) * DAY + int(h) * HOUR for d, h in zip(doy.ravel(), hod.ravel())] for y in range(1990, 2020)])
    era_times = np.unique(np.concatenate([times, past.ravel()]))
    era = world.dataset(every, ['time'], {'time': era_times})
    land = gen.rng(case['seed']).uniform(size=(len(lat), len(lon))) < 0.5
    lsm = xr.DataArray(land.astype(float), dims=['latitude', 'longitude'], coords=dict(latitude=lat, longitude=lon))
    other = world.dataset(every, ['time'], {'time': times})
    mod.target_configs = {
        f'era5_{res}': dict(path=world.write('era5', era.assign(land_sea_mask=lsm), fl[0]), variables=pv if baseline and case['target'] != 'era5' else tv),
        f'hres_t0_{res}': dict(path=world.write('hres_t0', other, fl[1]), variables=tv)}
    if baseline and case['target'] == 'era5' and kind != 'climatology':
      common_vars = sorted(tv)
    target = (era if case['target'] == 'era5' else other)
    # Climatology: the days in use and some others.
    days = np.unique(np.concatenate([doy.ravel(), np.array([1, 59, 60, 365, 366])]))
    cl = world.dataset(every, ['hour', 'dayofyear'], {'hour': [0, 6, 12, 18], 'dayofyear': days})
    stored = cl.copy()
    for v in PRECIP:
      stored[v + '_seeps_threshold'] = world.array(['hour', 'dayofyear', 'latitude', 'longitude'], {'hour': [0, 6, 12, 18], 'dayofyear': days}, scale=0.5) + 0.3
      stored[v + '_seeps_dry_fraction'] = world.array(['hour', 'dayofyear', 'latitude', 'longitude'], {'hour': [0, 6, 12, 18], 'dayofyear': days}, scale=0.2).clip(0.02, 0.95)
    mod.climatology_configs = {f'era5_{res}_{year}': dict(path=world.write('clim', stored, fl[2]), variables=pv)}
    # Forecasts, with decoys before, between and after the requested ones.
    mod.deterministic_prediction_configs, mod.probabilistic_prediction_configs = {}, {}
    file_hours = hours if all_leads else np.unique(np.concatenate([hours, hours + 6, hours + 3, [0, 72]]))
    if not baseline:
      fi = np.unique(np.concatenate([init, decoys]))
      dims = ['time', 'prediction_timedelta'] + (['number'] if ensemble else [])
      fc = world.dataset(pv, dims[::-1] if case['order'] else dims, {'time': fi, 'prediction_timedelta': gen.h2td(file_hours), 'number': np.arange(3)}, nan=0.1 if kind == 'keisler' else 0.0)
      if case['hole'] and kind != 'keisler':
        # One forecast is missing altogether: an average over initializations must not pass it over in silence.
        v = common_vars_with_levels[0]
        fc[v] = fc[v].where((fc.time != init[0]) | (fc.prediction_timedelta != td[0]))
      if kind == 'excarta':
        fc = fc.drop_encoding()
      cfg = dict(path=world.write('forecast', fc, fl[1]), variables=pv)
      if case['levels']:
        cfg['levels'] = list(levels)
      if kind == 'keisler':
        cfg['data_loader_kwargs'] = {'add_nan_mask': True}
      decoy = dict(path='/nonexistent', variables=[])
      (mod.probabilistic_prediction_configs if ensemble else mod.deterministic_prediction_configs)[f'{name}_{res}_{year}'] = cfg
      mod.deterministic_prediction_configs.update({f'{name}_{res}_1999': decoy, f'{name}x_{res}_{year}': decoy})

    # What the metrics should see, looked up label by label.
    it = xr.DataArray(init, dims=['init_time'], coords=dict(init_time=init))
    lt = xr.DataArray(td, dims=['lead_time'], coords=dict(lead_time=td))
    vt = xr.DataArray(valid, dims=['init_time', 'lead_time'], coords=dict(init_time=init, lead_time=td))
    def pick(da, **kw):
      return da.sel(level=levels, **kw) if 'level' in da.dims else da.sel(**kw)
    targ, pred = {}, {}
    for v in common_vars:
      targ[v] = pick(target[v], time=vt).drop_vars('time').assign_coords(valid_time=vt)
      if kind == 'persistence':
        pred[v] = pick(era[v], time=it).drop_vars('time').expand_dims(lead_time=td)
      elif kind == 'climatology':
        pred[v] = pick(cl[v], dayofyear=vt.copy(data=doy), hour=vt.copy(data=hod)).drop_vars(['dayofyear', 'hour'])
      elif kind == 'probabilistic_climatology':
        ct = xr.DataArray(past.reshape(30, *valid.shape), dims=['number', 'init_time', 'lead_time'], coords=dict(number=np.arange(30), init_time=init, lead_time=td))
        pred[v] = pick(era[v], time=ct).drop_vars('time')
      else:
        pred[v] = pick(fc[v], time=it, prediction_timedelta=lt).drop_vars(['time', 'prediction_timedelta'])
    if ensemble:
      metrics = {'crps': probabilistic.CRPSEnsemble(), 'unbiased_spread_skill': probabilistic.UnbiasedSpreadSkillRatio(),
                 'unbiased_mean_rmse': probabilistic.UnbiasedEnsembleMeanRMSE(),
                 'mean_rmse': wrappers.WrappedMetric(deterministic.RMSE(), [wrappers.EnsembleMean(which='predictions')])}
    else:
      metrics = {'rmse': deterministic.RMSE(), 'mse': deterministic.MSE(), 'bias': deterministic.Bias(),
                 'acc': deterministic.ACC(climatology=stored), 'prediction_activity': deterministic.PredictionActivity(climatology=stored)}
      pairs = [(u, v, w) for u, v, w in ((*UPPER[2:4], 'wind'), (*SURFACE[2:4], '10m_wind')) if u in common_vars and v in common_vars]
      if pairs:
        metrics['vector_rmse'] = deterministic.WindVectorRMSE(*[list(x) for x in zip(*pairs)])
      rain = [v for v in common_vars if v in PRECIP]
      if rain:
        metrics['seeps'] = categorical.SEEPS(variables=rain, climatology=stored, dry_threshold_mm=[{PRECIP[0]: 0.1, PRECIP[1]: 0.25}[v] for v in rain])
    reduce_dims = ['latitude', 'longitude'] + ([] if case['temporal'] else ['init_time'])
    exp = expected_values(metrics, pred, targ, case['temporal'], reduce_dims, lat, lon, land, kind == 'keisler', REGIONS)

    out = os.path.join(tmp, 'results')
    os.mkdir(out)
    sys.modules['wbxv_fake_config'] = mod
    with warnings.catch_warnings(), remembered_masks():
      warnings.simplefilter('ignore')
      scripts.load('public_benchmark/run_benchmark_evaluation.py').run(args + [f'--output_dir={out}'], objects=runner_of(case))
    fn = f"{name}_vs_{case['target']}_{res}_{span}{'_temporal' if case['temporal'] else ''}.nc"
    check(os.listdir(out) == [fn], f'wrote {os.listdir(out)} instead of {fn}')
    with xr.open_dataset(os.path.join(out, fn), decode_timedelta=True) as ds:
      got = ds.load()
    compare(got, exp, None)
  finally:
    sys.modules.pop('wbxv_fake_config', None)
    shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ the example script


@st.composite
def example_cases(draw):
  c = draw(common())
  names = subset(draw, UPPER, 1, 2) + subset(draw, SURFACE, 0, 2)
  c['vars'] = draw(st.sampled_from([names, names, None]))
  c['levels'] = draw(st.sampled_from([None, [500], [850, 600]]))
  c['reduce'] = draw(st.sampled_from([None, None, ['latitude', 'longitude'], ['longitude', 'latitude', 'init_time', 'lead_time'], ['lead_time', 'longitude', 'latitude']]))
  c['files'] = draw(st.sampled_from(['metrics', 'both', 'state']))
  return c


@test('P31', example_cases(), quick=80, thorough=3000)
def example_script(case, ctx):
  init, hours = requested(case)
  variables = case['vars'] or ['geopotential', 'temperature', 'u_component_of_wind', 'v_component_of_wind', 'specific_humidity', '2m_temperature', 'mean_sea_level_pressure']
  ctx.nt(len(init) * len(hours) > 1)
  ctx.label('files=' + case['files'], 'runner=' + case['runner'], f"vars={'given' if case['vars'] else 'default'}")
  td = gen.h2td(hours)
  valid = init[:, None] + td[None, :]
  tmp = tempfile.mkdtemp(prefix='wbxv_p31_')
  try:
    world = World(case, tmp)
    every = list(dict.fromkeys(variables + ['wind_speed', '10m_u_component_of_wind']))
    decoys = np.concatenate([init - 6 * HOUR, init + 12 * HOUR, init + 24 * HOUR])
    obs = world.dataset(every, ['time'], {'time': np.unique(np.concatenate([valid.ravel(), decoys]))})
    fc = world.dataset(every, ['time', 'prediction_timedelta'], {'time': np.unique(np.concatenate([init, decoys])), 'prediction_timedelta': gen.h2td(np.unique(np.concatenate([hours, hours + 6, hours + 3, [0, 72]])))})
    a, b, s = case['lead']
    mp, sp_ = os.path.join(tmp, 'metrics.nc'), os.path.join(tmp, 'state.nc')
    args = [f"--prediction_path={world.write('forecast', fc, case['flip'][0])}", f"--target_path={world.write('obs', obs, case['flip'][1])}",
            f"--time_start={case['start']}", f"--time_stop={case['stop']}", f'--lead_time_start={a}', f'--lead_time_stop={b}']
    if case['lead_freq']:
      args.append(f'--lead_time_frequency={s}')
    if case['freq']:
      args.append(f"--time_frequency={case['freq']}")
    if case['ichunk']:
      args.append(f"--time_chunk_size={case['ichunk']}")
    if case['lchunk']:
      args.append(f"--lead_time_chunk_size={case['lchunk']}")
    if case['levels']:
      args.append('--levels=' + ','.join(map(str, case['levels'])))
    if case['vars']:
      args.append('--variables=' + ','.join(variables))
    if case['reduce']:
      args.append('--reduce_dims=' + ','.join(case['reduce']))
    if case['files'] != 'state':
      args.append('--output_path=' + mp)
    if case['files'] != 'metrics':
      args.append('--aggregation_state_output_path=' + sp_)
    levels = case['levels'] or LEVELS
    it, lt = xr.DataArray(init, dims=['init_time'], coords=dict(init_time=init)), xr.DataArray(td, dims=['lead_time'], coords=dict(lead_time=td))
    vt = xr.DataArray(valid, dims=['init_time', 'lead_time'], coords=dict(init_time=init, lead_time=td))
    pred, targ = {}, {}
    for v in variables:
      kw = dict(level=levels) if v in UPPER else {}
      pred[v] = fc[v].sel(time=it, prediction_timedelta=lt, **kw).drop_vars(['time', 'prediction_timedelta'])
      targ[v] = obs[v].sel(time=vt, **kw).drop_vars('time')
    metrics = {'rmse': deterministic.RMSE(), 'mse': deterministic.MSE()}
    reduce_dims = case['reduce'] or ['init_time', 'latitude', 'longitude']
    exp = expected_values(metrics, pred, targ, False, reduce_dims, world.lat, world.lon, None, False, {k: REGIONS[k] for k in ('global', 'northern-hemisphere')})
    with warnings.catch_warnings(), remembered_masks():
      warnings.simplefilter('ignore')
      scripts.load('evaluation_scripts/run_example_evaluation.py').run(args, objects=runner_of(case))
    have = {n for n in os.listdir(tmp) if n.endswith('.nc')}
    check(have == {'metrics': {'metrics.nc'}, 'state': {'state.nc'}, 'both': {'metrics.nc', 'state.nc'}}[case['files']], f'wrote {have}')
    if 'metrics.nc' in have:
      with xr.open_dataset(mp, decode_timedelta=True) as ds:
        compare(ds.load(), exp, None)
    if 'state.nc' in have:
      from weatherbenchX import aggregation
      with xr.open_dataset(sp_, decode_timedelta=True) as ds:
        state = aggregation.AggregationState.from_dataset(ds.load())
      compare(state.metric_values(metrics), exp, None)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
