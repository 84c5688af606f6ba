"""P32: combined results keep every score under its own labels."""
import os
import shutil
import tempfile
import warnings

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, scripts
from wbxv.cmp import check, fail, same_np
from wbxv.core import test

RULE = ('1-8 result files (deterministic or probabilistic models, years, resolutions) with their own regions, lead times, levels, metrics '
        'and variables per file, missing values; non-trivial = at least two files')
ASSUMPTIONS = ['result files have the layout and the names the evaluation script gives them',
               'at least one of the variables has levels']

MODELS = {
    'deterministic': {'hres_vs_hres_t0': 'IFS HRES vs Analysis', 'hres_vs_era5': 'IFS HRES vs ERA5', 'ens_mean_vs_era5': 'IFS ENS (mean) vs ERA5',
                      'persistence_vs_era5': 'Persistence vs ERA5', 'climatology_vs_era5': 'Climatology vs ERA5', 'pangu_vs_era5': 'Pangu-Weather vs ERA5',
                      'pangu_hres_init_vs_era5': 'Pangu-Weather (oper.) vs ERA5', 'pangu_hres_init_vs_hres_t0': 'Pangu-Weather (oper.) vs Analysis',
                      'graphcast_vs_era5': 'GraphCast vs ERA5', 'neuralgcm_ens_mean_vs_era5': 'NeuralGCM ENS (mean) vs ERA5',
                      'keisler_vs_era5': 'Keisler (2022) vs ERA5', 'weathermesh4_vs_era5': 'WeatherMesh4 vs ERA5'},
    'probabilistic': {'ens_vs_hres_t0': 'IFS ENS vs Analysis', 'ens_vs_era5': 'IFS ENS vs ERA5', 'neuralgcm_ens_vs_era5': 'NeuralGCM ENS vs ERA5',
                      'probabilistic_climatology_vs_era5': 'Probabilistic Climatology vs ERA5', 'gencast_vs_era5': 'GenCast vs ERA5',
                      'arches_weather_gen_vs_era5': 'ArchesWeatherGen vs ERA5'}}
METRICS = {
    'deterministic': {'rmse': 'RMSE', 'mae': 'MAE', 'bias': 'Bias', 'acc': 'ACC', 'mse': 'MSE', 'prediction_activity': 'Forecast Activity', 'seeps': 'SEEPS'},
    'probabilistic': {'crps': 'CRPS', 'spread_skill': 'Spread/Skill', 'unbiased_spread_skill': 'Unbiased Spread/Skill',
                      'unbiased_mean_rmse': 'Unbiased Mean RMSE', 'mean_rmse': 'Mean RMSE'}}
REGIONS = {'global': 'Global', 'tropics': 'Tropics', 'northern-hemisphere': 'Northern Hemisphere', 'southern-hemisphere': 'Southern Hemisphere',
           'europe': 'Europe', 'north-america': 'North America', 'ausnz': 'Australia/New Zealand', 'arctic': 'Arctic', 'antarctic': 'Antarctic',
           'south-east-asia': 'South-East Asia', 'northern-africa': 'Northern Africa'}
REGIONS = {**REGIONS, **{k + '_land': v + ' (Land)' for k, v in REGIONS.items()}}
UPPER = {'geopotential': 'Geopotential', 'temperature': 'Temperature', 'u_component_of_wind': 'U Component of Wind', 'wind_speed': 'Wind Speed'}
SURFACE = {'2m_temperature': '2m Temperature', 'mean_sea_level_pressure': 'Sea Level Pressure', '10m_wind_speed': '10m Wind Speed',
           '10m_u_component_of_wind': '10m U Component of Wind', 'total_precipitation_24hr': '24h Precipitation', 'total_precipitation_6hr': '6h Precipitation'}
YEARS = ['2018', '2020', '2022']
RES = ['64x32', '240x121', '1440x721']


def subset(draw, names, lo=1, hi=4):
  return draw(st.lists(st.sampled_from(list(names)), min_size=lo, max_size=hi, unique=True))


@st.composite
def cases(draw):
  mode = draw(st.sampled_from(['deterministic', 'probabilistic']))
  n = draw(st.sampled_from([2, 3, 4, 1, 6, 8]))
  pool = subset(draw, MODELS[mode], 1, 3)
  keys = draw(st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(YEARS), st.sampled_from(RES)), min_size=n, max_size=n, unique=True)
              if len(pool) * 9 >= n else st.nothing())
  files = []
  for k in keys:
    upper = subset(draw, UPPER, 1, 3)
    files.append(dict(
        key=list(k), upper=upper, surface=subset(draw, SURFACE, 0, 3), metrics=subset(draw, [m for m in METRICS[mode] if m != 'seeps'], 1, 3),
        partial=draw(st.booleans()), wind=draw(st.sampled_from([False, False, True])) and mode == 'deterministic',
        regions=subset(draw, REGIONS, 1, 4), leads=sorted(subset(draw, [0, 6, 12, 24, 30, 120, 360], 1, 4)), levels=subset(draw, [500, 700, 850], 1, 3),
        secs=draw(st.booleans()), order=draw(st.booleans()), nan=draw(st.sampled_from([0.0, 0.2])), seed=draw(gen.seeds)))
  return dict(mode=mode, files=files)


def entries(case, f):
  """{(metric, variable): (has level, values)} of one file, in a deterministic order."""
  r = gen.rng(f['seed'])
  out = {}
  def array(level):
    shape = [len(f['regions']), len(f['leads'])] + ([len(f['levels'])] if level else [])
    x = r.normal(size=shape)
    return np.where(r.uniform(size=shape) < f['nan'], np.nan, x)
  for v in f['upper'] + f['surface']:
    ms = list(f['metrics'])
    if f['partial'] and len(ms) > 1 and r.integers(0, 2):
      ms = ms[1:]
    if v.startswith('total_precipitation') and case['mode'] == 'deterministic':
      ms = ms + ['seeps']
    for m in ms:
      out[m, v] = (v in UPPER, array(v in UPPER))
  if f['wind']:
    out['vector_rmse', 'wind'] = (True, array(True))
    out['vector_rmse', '10m_wind'] = (False, array(False))
  return out


@test('P32', cases(), quick=200, thorough=5000)
def combined_store(case, ctx):
  ctx.nt(len(case['files']) > 1)
  ctx.label('mode=' + case['mode'], f"files={len(case['files'])}")
  tmp = tempfile.mkdtemp(prefix='wbxv_p32_')
  try:
    expected = {}
    for f in case['files']:
      model, year, res = f['key']
      ds = {}
      for (m, v), (level, x) in entries(case, f).items():
        dims = ['region', 'lead_time'] + ['level'] * level
        da = xr.DataArray(x, dims=dims, coords=dict(region=f['regions'], lead_time=gen.h2td(np.array(f['leads'])), **(dict(level=f['levels']) if level else {})))
        if f['order']:
          da = da.transpose(*dims[::-1])
        if f['secs']:
          da = da.assign_coords(lead_time_secs=('lead_time', np.array(f['leads']) * 3600.))
        ds[f'{m}.{v}'] = da
        name = {'wind': 'Wind Vector', '10m_wind': '10m Wind Vector'}.get(v) or {**UPPER, **SURFACE}[v]
        metric = 'RMSE' if m == 'vector_rmse' else METRICS[case['mode']][m]
        for i, reg in enumerate(f['regions']):
          for j, lead in enumerate(f['leads']):
            for k, lev in enumerate(f['levels'] if level else [None]):
              expected[name, MODELS[case['mode']][model], year, res, metric, REGIONS[reg], lead, lev] = x[i, j, k] if level else x[i, j]
      xr.Dataset(ds).to_netcdf(os.path.join(tmp, f'{model}_{res}_{year}.nc'))
    before = {n: open(os.path.join(tmp, n), 'rb').read() for n in sorted(os.listdir(tmp))}
    out = os.path.join(tmp, 'out')
    os.mkdir(out)
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      scripts.load('public_benchmark/combine_results.py').run(['--mode=' + case['mode'], '--input_dir=' + tmp, '--output_dir=' + out])
      check(os.listdir(out) == [case['mode'] + '.zarr'], lambda: f"wrote {sorted(os.listdir(out))} instead of {case['mode']}.zarr")
      got = xr.open_zarr(os.path.join(out, case['mode'] + '.zarr'), decode_timedelta=True).compute()
    check({n: open(os.path.join(tmp, n), 'rb').read() for n in sorted(os.listdir(tmp)) if n != 'out'} == before, 'result files changed')
    names = {e[0] for e in expected}
    check(set(got.data_vars) == names, f'variables {sorted(got.data_vars)} instead of {sorted(names)}')
    for d, i in (('model', 1), ('year', 2), ('resolution', 3), ('metric', 4), ('region', 5)):
      check(set(map(str, got[d].values)) == {e[i] for e in expected} and got.indexes[d].is_unique, f'{d}: {got[d].values} instead of {sorted({e[i] for e in expected})}')
    hours = got.lead_time.values / np.timedelta64(1, 'h')
    same_np(np.sort(hours), np.array(sorted({e[6] for e in expected}), float), 'lead times')
    same_np(got.lead_time_h.values.astype(float), hours, 'lead_time_h')
    for name in names:
      da = got[name]
      has_level = any(e[0] == name and e[7] is not None for e in expected)
      check(('level' in da.dims) == has_level, f'{name}: dims {da.dims}')
      dims = ['model', 'year', 'resolution', 'metric', 'region', 'lead_time'] + ['level'] * has_level
      check(set(da.dims) == set(dims), f'{name}: dims {da.dims}')
      da = da.transpose(*dims)
      labels = [list(map(str, da[d].values)) for d in dims[:5]] + [list(hours)] + ([list(da.level.values)] if has_level else [])
      e = np.full(da.shape, np.nan)
      for key, x in expected.items():
        if key[0] == name:
          idx = tuple(labels[i].index(key[i + 1]) for i in range(5)) + (labels[5].index(float(key[6])),)
          e[idx + ((labels[6].index(key[7]),) if has_level else ())] = x
      same_np(da.values, e, name)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
