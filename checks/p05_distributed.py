"""P05: distributed evaluation equals in-memory evaluation."""
import logging
import os
import shutil
import tempfile

import dask
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from checks import p28_independence as p28
from wbxv import chaosbeam, gen
from wbxv.cmp import check, fail, same_np
from wbxv.core import Discard, test
from weatherbenchX import aggregation, beam_pipeline, binning, interpolations as itp, time_chunks, weighting
from weatherbenchX.data_loaders import base as lbase, latency_wrappers as lw, sparse_parquet as sp, xarray_loaders as xl
from weatherbenchX.metrics import base, categorical as cat, deterministic as det, probabilistic as prob, wrappers as wr

TECHNIQUE = ('property-based testing: the real pipeline graph is executed under generated schedules (bundling, retries, abandoned '
             'attempts, serialisation, merge trees) and in Beam\'s own runner, differentially against one-shot evaluation in memory')
RULE = ('gridded data (in memory, zarr; forecasts, persistence, climatology or latency-adjusted forecasts as predictions) and sparse '
        'observations (stations that differ per chunk, chunks without any, observation windows), 1-4 metrics, kept or reduced time '
        'dims, 0-2 binnings, area weights, masks; any chunk sizes; the pipeline runs under a generated schedule, one in eight cases '
        'in Beam\'s own runner; non-trivial = more than one chunk')
ASSUMPTIONS = ['initialization and lead times are in increasing order when they are kept (chunks are put in coordinate order)',
               'coordinates that are not on every chunk are dropped, as documented',
               'a period without any observation yields no values']
logging.getLogger('apache_beam').setLevel(logging.CRITICAL)
dask.config.set(scheduler='synchronous')


SETUP = [1]  # whether the function to be called once per worker was called


def setup():
  SETUP[0] += 1


class TableLoader(lbase.DataLoader):
  """A loader over arrays with init_time and lead_time."""

  def __init__(self, data, setup=False, **kw):
    super().__init__(**kw)
    self.data, self.setup = data, setup

  def _load_chunk_from_source(self, init_times, lead_times=None):
    if self.setup:
      check(SETUP[0] > 0, 'data loaded on a worker that has not been set up')
    out = {v: x.sel(init_time=init_times, lead_time=lead_times) for v, x in self.data.items()}
    return xr.Dataset(out) if isinstance(self.data, xr.Dataset) else out


# ------------------------------------------------------------------ running and comparing

def direct(times, pl, tl, metrics, agg):
  t = tl.load_chunk(times.init_times, times.lead_times)
  p = pl.load_chunk(times.init_times, times.lead_times, t)
  stats = base.compute_unique_statistics_for_all_metrics(metrics, p, t)
  state = agg.aggregate_statistics(stats)
  return state, state.metric_values(metrics)


def flat(state):
  return {(s, str(v), k): x for k in ('sum_weighted_statistics', 'sum_weights') for s, d in getattr(state, k).items() for v, x in d.items()}


def execute(case, define, clean=lambda: None):
  """Runs the pipeline: generated schedule, or Beam's own runner (also for graphs of other primitives). Any failure is the pipeline's."""
  try:
    run = None if case['real'] else chaosbeam.run(define, case['sched'], case['bundle'], case['retry'])
    if run is None:
      clean()
      chaosbeam.run_real(define)
    return run
  except Exception as e:
    import traceback
    fail(f'the pipeline failed: {type(e).__name__}: {str(e)[:600]}\n{traceback.format_exc()[-2500:]}')


def pipeline(case, times, pl, tl, metrics, agg, want_metrics=True, want_state=True):
  """(metrics Dataset, AggregationState, description of the run) read back from the files written."""
  tmp = tempfile.mkdtemp(prefix='wbxv_p05_')
  try:
    mp, sp_ = os.path.join(tmp, 'out', 'metrics.nc'), os.path.join(tmp, 'state.nc')
    def define(root):
      beam_pipeline.define_pipeline(root, times, pl, tl, metrics, agg, out_path=mp if want_metrics else None,
                                    aggregation_state_out_path=sp_ if want_state else None,
                                    setup_fn=setup if case['setup'] else None)
    run = execute(case, define)
    m = s = None
    if want_metrics:
      with xr.open_dataset(mp, decode_timedelta=True) as ds:
        m = ds.load()
      check(os.listdir(os.path.dirname(mp)) == ['metrics.nc'], 'files left next to the result')
    else:
      check(not os.path.exists(mp), 'a file that was not asked for')
    if want_state:
      with xr.open_dataset(sp_, decode_timedelta=True) as ds:
        s = aggregation.AggregationState.from_dataset(ds.load())
    return m, s, run
  finally:
    shutil.rmtree(tmp)


def coerce(x):
  """Labels as they come back from netCDF."""
  x = np.asarray(x)
  if x.dtype.kind in 'OSU':
    return x.astype(str)
  if x.dtype.kind in 'mM':
    return x.astype('datetime64[ns]' if x.dtype.kind == 'M' else 'timedelta64[ns]').astype('int64')
  return x.astype('float64') if x.dtype.kind in 'iufb' else x


def same(a, b, what, dropped=(), tol=None, rtol=1e-9, atol=1e-9, alt=None):
  """a (from file) equals b: labels as sets of coordinates in any order, values by label. Where b is missing and `alt` is not, a may equal either."""
  if set(a.dims) != set(b.dims):
    fail(f'{what}: dims {a.dims}, expected {b.dims}')
  a = a.transpose(*b.dims)
  if dict(a.sizes) != dict(b.sizes):
    fail(f'{what}: sizes {dict(a.sizes)}, expected {dict(b.sizes)}')
  for d in b.dims:
    check((d in a.coords) == (d in b.coords), lambda: f'{what}: labels of {d}: {d in a.coords}, expected {d in b.coords}')
    if d in b.coords:
      la, lb = coerce(a[d].values), coerce(b[d].values)
      oa, ob = np.argsort(la, kind='stable'), np.argsort(lb, kind='stable')
      same_np(la[oa], lb[ob], f'{what}: labels of {d}', 1e-12, 1e-12)
      a, b = a.isel({d: oa}), b.isel({d: ob})
      if alt is not None and alt.sizes.get(d) == b.sizes[d]:
        alt = alt.isel({d: np.argsort(coerce(alt[d].values), kind='stable')})
  for c in b.coords:
    if c in b.dims or c in dropped:
      continue
    check(c in a.coords, lambda: f'{what}: coordinate {c} is missing (has {sorted(map(str, a.coords))})')
    check(set(a[c].dims) == set(b[c].dims), lambda: f'{what}: coordinate {c} dims {a[c].dims}, expected {b[c].dims}')
    same_np(coerce(a[c].transpose(*b[c].dims).values), coerce(b[c].values), f'{what}: coordinate {c}', 1e-9, 1e-9)
  extra = set(a.coords) - set(b.coords)
  check(not extra, lambda: f'{what}: coordinates {extra} in addition')
  x, y = np.asarray(a.values, float), np.asarray(b.values, float)
  if alt is not None and set(alt.dims) == set(b.dims) and dict(alt.sizes) == dict(b.sizes):
    y = np.where(np.isnan(y) & ~np.isnan(x), np.asarray(alt.transpose(*b.dims).values, float), y)
  if tol is None:
    same_np(x, y, what, rtol, atol)
  else:
    t = np.asarray(tol.transpose(*b.dims).values if set(tol.dims) == set(b.dims) else np.inf, float)
    with np.errstate(all='ignore'):
      ok = (np.abs(x - y) <= 1e-6 + 1e-6 * np.abs(y) + t) | (np.isnan(x) & np.isnan(y)) | (x == y) | ~np.isfinite(t)
    if not ok.all():
      fail(f'{what}: got\n{x}\nexpected\n{y}')


EPS = {4: 3e-6, 8: 1e-10}  # rounding of sums in another order


def eps(x, name=''):
  if 'Fraction' in name:  # Neighbourhood averages are computed in float32, by FFT.
    return EPS[4]
  return EPS.get(x.dtype.itemsize, 1e-10) if x.dtype.kind == 'f' else 1e-10


def sensitivity(state, metrics, seed):
  """How much the metrics move if the aggregated values carry rounding errors; not finite where that decides."""
  base_ = state.metric_values(metrics)
  out = {}
  for k in range(2):
    r = gen.rng([seed, k, 77])
    noisy = aggregation.AggregationState(
        *[{s: {v: x + 10 * eps(x, s) * (1 + abs(x)) * r.uniform(-1, 1, size=x.shape) * (x != 0) for v, x in d.items()} for s, d in q.items()}
          for q in (state.sum_weighted_statistics, state.sum_weights)])
    for n, x in noisy.metric_values(metrics).items():
      with np.errstate(all='ignore'):
        d = abs(x - base_[n])
        d = xr.where(np.isnan(x) & np.isnan(base_[n]), 0.0, xr.where(np.isfinite(d), d, xr.where(x == base_[n], 0.0, np.inf)))
        d = xr.where(d > 1e-2 * (1 + abs(base_[n])), np.inf, d)
      out[n] = d if n not in out else xr.where(out[n] > d, out[n], d)
  return {n: 10 * x for n, x in out.items()}


def judge(case, ctx, times, pl, tl, metrics, agg, empty=True):
  """Evaluates in memory and by the pipeline."""
  SETUP[0] = 1
  try:
    state, values = direct(times, pl, tl, metrics, agg)
    shown = aggregation.AggregationState.from_dataset(state.to_dataset())
  except Exception as e:  # not a valid request in memory either
    ctx.label('invalid_in_memory:' + type(e).__name__ + str(e)[:60])
    raise Discard()
  if not flat(shown) or not empty and any(x.size == 0 for x in flat(state).values()):  # nothing to aggregate: no file
    ctx.label('nothing_to_aggregate')
    raise Discard()
  SETUP[0] = 0
  m, s, run = pipeline(case, times, pl, tl, metrics, agg, case['files'] != 'state', case['files'] != 'metrics')
  ctx.label('runner=' + ('chaos' if run else 'beam'), f"files={case['files']}")
  if run:
    for k, n in run.stats.items():
      ctx.label(f'{k}>0' if n else f'{k}=0')
  fine = None
  if agg.bin_by and not agg.skipna and any(np.isnan(x.values).any() for x in [*flat(shown).values(), *values.values()]):
    # A missing value outside of a bin (weight 0) may or may not make that bin missing, so it depends on the chunks.
    ctx.label('missing_outside_bins')
    init, leads, SETUP[0] = times.init_times, times.lead_times, 1
    chunks = time_chunks.TimeChunks(init, leads, 1, None if isinstance(leads, slice) else 1)
    fine = aggregation.AggregationState.sum([direct(c, pl, tl, metrics, agg)[0] for c in _singles(chunks)])
    fine = flat(fine), fine.metric_values(metrics)
  return (state, shown, fine), values, m, s


def _singles(chunks):
  for init, leads in chunks:
    yield time_chunks.TimeChunks(init, leads)


def blank(x):
  return x.ndim == 0 and bool(np.isnan(x.values))


def compare(ctx, states, values, m, s, metrics, seed, nothing=False):
  exact, state, fine = states
  if s is not None:
    a, b = flat(s), flat(state)
    check(set(a) == set(b), lambda: f'aggregation state holds {sorted(a)}, expected {sorted(b)}')
    for k in b:
      if nothing and blank(a[k]) and not (b[k[:2] + ('sum_weights',)].fillna(0) != 0).any():  # documented: no data in the whole period
        continue
      e = eps(b[k], k[0])
      same(a[k], b[k], f'aggregation state {k}', rtol=e, atol=e * 10, alt=fine and fine[0].get(k))
  if m is not None:
    check(set(m) == set(values), lambda: f'metrics file holds {sorted(m)}, expected {sorted(values)}')
    tol = sensitivity(exact, metrics, seed)
    for k in values:
      if nothing and bool(np.isnan(np.asarray(values[k].values, float)).all()) and blank(m[k]):
        continue
      same(m[k], values[k], f'metric {k}', tol=tol[k], alt=fine and fine[1].get(k))


# ------------------------------------------------------------------ gridded

@st.composite
def schedule(draw, ni=None):
  return dict(real=draw(st.integers(0, 9)) == 7, sched=draw(gen.seeds), bundle=draw(st.sampled_from([1, 2, 3, 8])), retry=draw(st.sampled_from([0.0, 0.2, 0.5])),
              files=draw(st.sampled_from(['both', 'both', 'metrics', 'state'])), ics=draw(st.sampled_from([1, 1, 2, 3, None, 0])),
              lcs=draw(st.sampled_from([1, 1, 2, None, 3])), setup=draw(st.booleans()))


# Statistics of one location and time only: a chunk's statistics are then those of the whole period.
LOCAL_WRAPPERS = ['inline', 'relu', 'shift', 'bin', 'bins', 'cdf', 'named', 'sub', 'sel']
POOL = sorted(set(p28.DET) - {'REV', 'Reliability'})
EPOOL = sorted(set(p28.ENS) - {'Confident', 'JaccardDistant', 'Opportunism', 'Stack', 'CRPSDistance', 'Wasserstein'})


def _local(s):
  return all(k in LOCAL_WRAPPERS and 'lead_time' not in repr(a) for k, a in s['w'])


@st.composite
def _metrics(draw, ens, tens):
  pool = ['CRPSDistance', 'Wasserstein', 'CRPSSpread'] if tens else EPOOL if ens else POOL
  out = []
  for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
    s = draw(p28.spec(pool))
    if ens:  # one ensemble, of predictions
      s['a'] = {k: 'number' if v == 'realization' else 'predictions' if k == 'which' and not tens else v for k, v in s['a'].items()}
    out.append(s if _local(s) else dict(s, w=[]))
  return out


@st.composite
def grid_cases(draw):
  ens = draw(st.sampled_from([False, False, True]))
  tens = ens and draw(st.sampled_from([False, False, False, True]))
  mask = draw(st.sampled_from([False, False, True]))
  c = dict(ens=ens, tens=tens, two=False, seed=draw(gen.seeds), specs=draw(_metrics(ens, tens)), pos=draw(st.booleans()),
           nan=draw(st.sampled_from([0, 0, 0, 1, 2])), mask=mask, dataset=draw(st.booleans()), extra=draw(st.booleans()))
  c.update(draw(schedule()))
  space = [d for d in ['latitude', 'longitude'] if draw(st.sampled_from([True, True, True, False]))]
  bins = draw(st.lists(st.sampled_from(['hour', 'region', 'band', 'lead_hour', 'sets', 'month', 'land', 'valid']),
                       max_size=2, unique_by=lambda b: NEEDS.get(b, b)))
  reduce = space + [d for d in ['init_time', 'lead_time'] if d in [NEEDS.get(b) for b in bins] or draw(st.sampled_from([True, True, False]))]
  c.update(reduce=list(draw(st.permutations(reduce))), bins=bins,
           area=draw(st.booleans()), masked=mask and draw(st.sampled_from([True, True, False])), skipna=draw(st.booleans()), nanmask=draw(st.sampled_from([False, False, True])),
           valid=draw(st.booleans()), aux=draw(st.sampled_from([None, None, 'scalar', 'lead', 'init', 'lat'])), attrs=draw(st.booleans()), flat=draw(st.sampled_from([None, None, 'first', 'last'])),
           order=draw(st.sampled_from(['asc', 'asc', 'desc'] if {'init_time', 'lead_time'} - set(reduce) else ['asc', 'desc', 'mixed'])),
           source=draw(st.sampled_from(['table', 'table', 'zarr', 'persistence', 'climatology', 'latency', 'interp', 'ds'] if not ens else ['table'] if tens else ['table', 'zarr', 'ds', 'interp', 'latency'])))
  if c['source'] == 'interp':
    c['nan'] = 0  # How far missing values spread in linear interpolation (also in time) is not specified.
  return c


BINS = {
    'hour': lambda: binning.ByTimeUnit('hour', 'init_time'), 'month': lambda: binning.ByTimeUnit('month', 'init_time', add_global_bin=True),
    'region': lambda: binning.Regions({'a': ((-90, 0), (0, 360)), 'b': ((0, 90), (0, 100))}),
    'band': lambda: binning.LatitudeBins(90), 'lead_hour': lambda: binning.ByTimeUnit('hour', 'lead_time'),
    'sets': lambda: binning.ByTimeUnitSets({'x': [0], 'y': [6, 12]}, 'hour', 'init_time'),
    'land': lambda: binning.LandSea(xr.DataArray(np.arange(12.).reshape(3, 4) / 11, dims=['latitude', 'longitude'],
                                                 coords={k: p28.label(k) for k in ('latitude', 'longitude')})),
    'valid': lambda: binning.ByTimeUnit('day', 'valid_time')}
NEEDS = {'hour': 'init_time', 'month': 'init_time', 'sets': 'init_time', 'lead_hour': 'lead_time', 'valid': 'init_time'}


def gridded_loaders(case, p, t, tmp):
  """The predictions and targets of the case, behind the loaders under test."""
  src = case['source']
  if src == 'table':
    return TableLoader(p, setup=case['setup']), TableLoader(t, setup=case['setup'], add_nan_mask=case['nanmask'] and not case['mask'])
  # A reanalysis with a value at every valid time.
  r = gen.rng([case['seed'], 5])
  init, lead = p28.label('init_time'), p28.label('lead_time')
  vt = np.arange(init.min() - gen.h2td([24])[0], (init.max() + lead.max()) + gen.h2td([7])[0], gen.h2td([6])[0])
  lat, lon = p28.label('latitude'), p28.label('longitude')
  ref = xr.Dataset({v: (('time', 'latitude', 'longitude'), np.round(0.5 + 0.4 * r.normal(size=(len(vt), len(lat), len(lon))), 1))
                    for v in p28.variables(case)}, coords=dict(time=vt, latitude=lat, longitude=lon))
  fc = xr.Dataset({v: x.drop_vars([c for c in x.coords if c not in x.dims]) for v, x in p.items()}).rename(init_time='time', lead_time='prediction_timedelta')
  def where(ds, name):
    if src != 'zarr':
      return dict(ds=ds)
    ds.chunk({d: 2 if d == 'time' else 1 if d == 'prediction_timedelta' else -1 for d in ds.dims}).to_zarr(os.path.join(tmp, name + '.zarr'))
    return dict(path=os.path.join(tmp, name + '.zarr'))
  tl = xl.TargetsFromXarray(add_nan_mask=case['nanmask'], variables=p28.variables(case), **where(ref, 't'))
  if src == 'persistence':
    pl = xl.PersistenceFromXarray(ds=ref)
  elif src == 'climatology':
    doy = np.arange(1, 32)
    clim = xr.Dataset({v: (('dayofyear', 'hour', 'latitude', 'longitude'), r.normal(size=(31, 4, len(lat), len(lon)))) for v in p28.variables(case)},
                      coords=dict(dayofyear=doy, hour=[0, 6, 12, 18], latitude=lat, longitude=lon))
    pl = xl.ClimatologyFromXarray(ds=clim)
  elif src == 'latency':
    # Forecasts every 12 h, available 7 h later, with leads to cover the requests.
    i2 = np.arange(init.min() - gen.h2td([48])[0], init.max() + gen.h2td([1])[0], gen.h2td([12])[0])
    l2 = gen.h2td(np.arange(0, 49, 6))
    dims = ['time', 'prediction_timedelta', 'latitude', 'longitude'] + (['number'] if case['ens'] else [])
    sz = [len(i2), len(l2), len(lat), len(lon)] + ([p28.NM] if case['ens'] else [])
    ds = xr.Dataset({v: (dims, np.round(0.5 + 0.4 * r.normal(size=sz), 1)) for v in p28.variables(case)},
                    coords=dict(time=i2, prediction_timedelta=l2, latitude=lat, longitude=lon))
    pl = lw.XarrayConstantLatencyWrapper(xl.PredictionsFromXarray(ds=ds), gen.h2td([7])[0])
  elif src == 'interp':  # Forecasts on another grid.
    pl = xl.PredictionsFromXarray(ds=fc.isel(longitude=[0, 2, 3], latitude=[0, 2]), interpolation=itp.InterpolateToReferenceCoords(method='linear', wrap_longitude=True))
  else:
    pl = xl.PredictionsFromXarray(**where(fc, 'p'))
  return pl, tl


@test('P05', grid_cases(), 160, 5000)
def gridded_evaluation(case, ctx):
  p, t = p28.data(case)
  def prepare(m):
    out = {}
    for v, x in m.items():
      if case['valid']:
        x = x.assign_coords(valid_time=x.init_time + x.lead_time)
      if case['aux'] == 'scalar':
        x = x.assign_coords(run=7)
      elif case['aux']:
        d = {'lead': 'lead_time', 'init': 'init_time', 'lat': 'latitude'}[case['aux']]
        x = x.assign_coords(aux=(d, np.arange(x.sizes[d]) * 1.5))
      if case['attrs']:
        x = x.assign_attrs(units='K', source=v, history={'by': None})  # Not all attributes can be written to files.
      out[v] = x
    return out
  p, t = prepare(p), prepare(t)
  if case.get('flat') and case['source'] == 'table' and not case['mask']:  # A variable that lacks a dimension, which cannot be aggregated if that is reduced.
    def with_flat(m):
      v = sorted(m)[0]
      f = {'flat': m[v].isel(longitude=0, drop=True)}
      return {**f, **m} if case['flat'] == 'first' else {**m, **f}
    p, t = with_flat(p), with_flat(t)
  if case['dataset']:
    p, t = xr.Dataset(p), xr.Dataset(t)
  metrics = {f'm{i}': p28.build(s) for i, s in enumerate(case['specs'])}
  bins = [BINS[b]() for b in case['bins'] if b != 'valid' or case['valid'] or case['source'] != 'table']
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], bin_by=bins or None, weigh_by=[weighting.GridAreaWeighting()] if case['area'] else None,
                               masked=case['masked'], skipna=case['skipna'])
  tmp = tempfile.mkdtemp(prefix='wbxv_p05g_')
  try:
    pl, tl = gridded_loaders(case, p, t, tmp)
    i = {'asc': [0, 1, 2], 'desc': [2, 1, 0], 'mixed': [1, 2, 0]}[case['order']]
    times = time_chunks.TimeChunks(p28.label('init_time')[i], p28.label('lead_time')[::1 if case['order'] == 'asc' else -1], case['ics'], case['lcs'])
    state, values, m, s = judge(case, ctx, times, pl, tl, metrics, agg, empty=False)
    compare(ctx, state, values, m, s, metrics, case['seed'])
  finally:
    shutil.rmtree(tmp)
  ctx.label(*['bin=' + b for b in case['bins']], 'keeps=' + '+'.join(sorted({'init_time', 'lead_time'} - set(case['reduce']))), f'nm={len(metrics)}',
            'source=' + case['source'], 'order=' + case['order'])
  ctx.nt(len(times) > 1 and len(flat(state[0])) > 0)


# ------------------------------------------------------------------ sparse observations

@st.composite
def sparse_cases(draw):
  c = dict(seed=draw(gen.seeds), nobs=draw(st.sampled_from([1, 4, 12, 30, 60])), nst=draw(st.integers(1, 5)), ni=draw(st.integers(1, 3)), nl=draw(st.integers(1, 3)),
           window=draw(st.sampled_from(['exact', 'exact', 'tol', 'slice'])), split=draw(st.booleans()), dropna=draw(st.booleans()),
           nan=draw(st.sampled_from([0.0, 0.3])), mask=draw(st.booleans()), skipna=draw(st.booleans()), method=draw(st.sampled_from(['linear', 'nearest'])),
           metric=draw(st.lists(st.sampled_from(['RMSE', 'Bias', 'MAE', 'CSI', 'CRPS', 'SSR', 'Exceed', 'RankHist', 'PA']), min_size=1, max_size=2, unique=True)),
           bins=draw(st.just(['station', 'lead_time']) | st.just(['init_time', 'lead_time']) | st.just(['init_time', 'elev']) | st.just(['init_time', 'lead_unit', 'station']) | st.lists(st.sampled_from(['lead_time', 'station', 'init_time', 'region', 'band', 'hour', 'lead_unit', 'elev']), max_size=2, unique=True)),
           incl=draw(st.booleans()), area=draw(st.booleans()))
  c.update(draw(schedule()))
  if c['window'] == 'slice' and {'init_time', 'lead_time'} <= set(c['bins']):
    c['bins'].remove('lead_time')  # Each chunk would have its own lead times, which cannot be concatenated.
  return c


def sparse_setup(case, tmp):
  r = gen.rng(case['seed'])
  init = np.datetime64('2020-03-31T18', 'ns') + gen.h2td(6 * np.arange(case['ni']))
  leads = gen.h2td(6 * np.arange(case['nl']))
  n = case['nobs']
  st_ = r.integers(0, case['nst'], size=n)
  # Observations in the six-hourly slots of the request, few slots so that some have many and some none.
  slots = r.integers(0, case['ni'] + case['nl'] - 1, size=n)
  nominal = init[0] + gen.h2td(6 * slots)
  jitter = 0 if case['window'] == 'exact' else r.integers(-50, 51, size=n)
  t = nominal + (jitter * np.ones(n, int)).astype('timedelta64[m]').astype('timedelta64[ns]')
  lats, lons = r.integers(-80, 81, size=case['nst']), r.integers(0, 350, size=case['nst'])
  df = dict(timeObs=t, stationName=np.array([f's{k}' for k in st_], object), latitude=lats[st_].astype('float64'), longitude=lons[st_].astype('float64'),
            elevation=(st_ * 100.0))
  for v in ('a', 'b'):
    x = np.round(r.normal(size=n), 1)
    df[v] = np.where(r.uniform(size=n) < case['nan'], np.nan, x)
  df = pd.DataFrame(df)
  for y, mo in ((2020, 3), (2020, 4)):
    d = os.path.join(tmp, f'obs/year={y}/month={mo}')
    os.makedirs(d)
    df[df['timeObs'].dt.month == mo].to_parquet(f'{d}/{y}-{mo:02d}.parquet', index=False)
  kw = {}
  if case['window'] == 'tol':
    kw = dict(tolerance=np.timedelta64(1, 'h'))
  elif case['window'] == 'slice':
    leads = slice(leads[0], leads[-1] + gen.h2td([3])[0])
  tl = sp.SparseObservationsFromParquet(path=os.path.join(tmp, 'obs'), partitioned_by='month', time_dim='timeObs', variables=['a', 'b'],
                                        coordinate_variables=['stationName', 'latitude', 'longitude', 'elevation'], split_variables=case['split'],
                                        dropna=case['dropna'], include_slice_end_time=case['incl'], add_nan_mask=case['mask'], **kw)
  ens = any(m in ('CRPS', 'SSR', 'RankHist') for m in case['metric'])
  lat, lon, l2 = np.linspace(-90, 90, 4), np.arange(0, 360, 90.), gen.h2td(np.arange(0, 31, 3))
  dims = ['time', 'prediction_timedelta', 'latitude', 'longitude'] + (['number'] if ens else [])
  size = [len(init), len(l2), len(lat), len(lon)] + ([3] if ens else [])
  fc = xr.Dataset({v: (dims, np.round(r.normal(size=size), 2)) for v in ('a', 'b')},
                  coords=dict(time=init, prediction_timedelta=l2, latitude=lat, longitude=lon))
  pl = xl.PredictionsFromXarray(ds=fc, interpolation=itp.InterpolateToReferenceCoords(method=case['method'], wrap_longitude=True))
  return init, leads, pl, tl, ens


METRICS = {
    'RMSE': lambda e: det.RMSE(), 'Bias': lambda e: det.Bias(), 'MAE': lambda e: det.MAE(), 'PA': lambda e: det.PredictionAverage(),
    'CSI': lambda e: wr.WrappedMetric(cat.CSI(), [wr.ContinuousToBinary('both', [-0.33, 0.42], 'threshold')]),
    'CRPS': lambda e: prob.CRPSEnsemble(ensemble_dim='number'), 'SSR': lambda e: prob.UnbiasedSpreadSkillRatio(ensemble_dim='number'),
    'RankHist': lambda e: prob.RankHistogram(ensemble_dim='number'),
    'Exceed': lambda e: det.ErrorExceedance([0.31, 1.01])}
SBINS = {
    'lead_time': lambda: binning.ByExactCoord('lead_time'), 'station': lambda: binning.ByExactCoord('stationName'),
    'init_time': lambda: binning.ByExactCoord('init_time'), 'region': BINS['region'], 'band': BINS['band'],
    'hour': lambda: binning.ByTimeUnit('hour', 'valid_time'), 'lead_unit': lambda: binning.ByTimeUnit('hour', 'lead_time'),
    'elev': lambda: binning.ByCoordBins('elevation', np.array([0.0, 150.0, 1000.0]))}


@test('P05', sparse_cases(), 100, 3000)
def sparse_evaluation(case, ctx):
  tmp = tempfile.mkdtemp(prefix='wbxv_p05s_')
  try:
    init, leads, pl, tl, ens = sparse_setup(case, tmp)
    metrics = {f'm{i}': METRICS[k](ens) for i, k in enumerate(case['metric'])}
    if ens:
      # All metrics see the ensemble: deterministic ones evaluate its mean.
      metrics = {n: m if k in ('CRPS', 'SSR', 'RankHist') else wr.WrappedMetric(m, [wr.EnsembleMean('predictions', 'number')])
                 for (n, m), k in zip(metrics.items(), case['metric'])}
    agg = aggregation.Aggregator(reduce_dims=['index'], bin_by=[SBINS[b]() for b in case['bins']] or None, masked=case['mask'], skipna=case['skipna'],
                                 weigh_by=[weighting.GridAreaWeighting()] if case['area'] and False else None)
    times = time_chunks.TimeChunks(init, leads, case['ics'], None if case['window'] == 'slice' else case['lcs'])
    state, values, m, s = judge(case, ctx, times, pl, tl, metrics, agg)
    empty = 0
    for i, l in times:
      x = tl.load_chunk(i, l)
      empty += all(y.size == 0 for y in x.values())
    ctx.label(f'empty_chunks={"all" if empty == len(times) else "some" if empty else "none"}')
    compare(ctx, state, values, m, s, metrics, case['seed'], nothing=True)
  finally:
    shutil.rmtree(tmp)
  ctx.label(*['bin=' + b for b in case['bins']], 'window=' + case['window'], *['metric=' + k for k in case['metric']])
  ctx.nt(len(times) > 1 and any(x.size for x in flat(state[0]).values()))
