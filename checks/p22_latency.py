"""P22: latency-adjusted forecasts never use data from the future."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import interpolations as itp
from weatherbenchX.data_loaders import base as lbase, latency_wrappers as lw, xarray_loaders as xl

RULE = ('sources with 1-8 initialization times on irregular, unsorted schedules, complete or sparse lead times, latencies of 0-30 h '
        '(also fractional hours and negative), queries before, at and between availability times in any order; 1-3 sources with '
        'different schedules and ties; gridded and sparse (index) chunks; non-trivial = the initialization used differs from the one queried')
ASSUMPTIONS = ['each nominal initialization time occurs once per source']
NS = 'timedelta64[ns]'


def td(h):
  return np.timedelta64(int(round(h * 60)), 'm').astype(NS)


def code(src, init_h, lead_h):
  return 1e6 * src + 100.0 * init_h + lead_h


class SparseSource(lbase.DataLoader):
  """Index-dimension source: for every requested pair, stations with times as coordinates."""

  def __init__(self, src, inits_h, leads_h, nst, **kw):
    super().__init__(**kw)
    self.src, self.inits, self.leads, self.nst = src, inits_h, leads_h, nst

  def _load_chunk_from_source(self, init_times, lead_times=None):
    i0 = np.datetime64('2020-01-01', 'ns')
    vals, ini, led, stn = [], [], [], []
    for i in init_times:
      for l in lead_times:
        ih, lh = (i - i0) / np.timedelta64(1, 'h'), l / np.timedelta64(1, 'h')
        if ih not in self.inits or lh not in self.leads:
          raise KeyError((ih, lh))
        for s in range(self.nst):
          vals.append(code(self.src, ih, lh) + s / 8.0)
          ini.append(i)
          led.append(l)
          stn.append(s)
    c = dict(init_time=('index', np.array(ini, 'datetime64[ns]')), lead_time=('index', np.array(led, NS)), station=('index', stn))
    return {'v': xr.DataArray(np.array(vals), dims='index', coords=c, name='v')}


@st.composite
def source(draw, multi):
  sched = draw(st.sampled_from(['regular', 'regular', 'irregular']))
  if sched == 'regular':
    step, off = draw(st.sampled_from([6, 12, 24])), draw(st.sampled_from([0, 6, 3]))
    inits = [off + step * i for i in range(draw(st.integers(1, 6)))]
  else:
    inits = sorted(draw(st.lists(st.integers(0, 60), min_size=1, max_size=6, unique=True)))
  order = draw(st.permutations(range(len(inits))))
  return dict(inits=[inits[i] for i in order], latency=draw(st.sampled_from([0, 0, 5, 6, 12, 0.5, 7.25, 30, -6])),
              maxlead=draw(st.sampled_from([120, 120, 120, 24, 48])), lstep=draw(st.sampled_from([0.5, 0.5, 0.5, 1, 6])), perm=draw(st.booleans()),)


@st.composite
def cases(draw):
  n = draw(st.sampled_from([1, 1, 2, 2, 3]))
  src = [draw(source(n > 1)) for _ in range(n)]
  first = int(min(min(s['inits']) + s['latency'] for s in src)) + 1
  qs = st.integers(first, first + 60) if draw(st.integers(0, 5)) else st.integers(-4, 80)
  # Queries exactly at availability times, too.
  qs = st.one_of(qs, qs, st.sampled_from([int(np.ceil(i + s['latency'])) for s in src for i in s['inits']]))
  return dict(src=src, q=draw(st.lists(qs, min_size=1, max_size=4, unique=True)),
              leads=draw(st.lists(st.sampled_from([0, 1, 3, 6, 12, 18, 24]), min_size=1, max_size=3, unique=True)),
              sparse=draw(st.integers(0, 3)) == 0, explicit=draw(st.booleans()), opts=draw(st.sampled_from(['none', 'none', 'proc', 'mask', 'vals', 'sub'])),
              unit=draw(st.sampled_from(['ns', 'h', 'm'])), halfq=draw(st.booleans()), force_multi=draw(st.booleans()))


def build(case, j, s):
  i0 = np.datetime64('2020-01-01', 'ns')
  leads = [float(l) for l in np.arange(0, s['maxlead'] + 1, s['lstep'])]
  if case['sparse']:
    base = SparseSource(j, [float(x) for x in s['inits']], leads, 2)
  else:
    v = np.array([[[code(j, i, l), code(j, i, l) + 0.5] for l in leads] for i in s['inits']])
    ds = xr.Dataset({'v': (('time', 'prediction_timedelta', 'longitude'), v), 'w': (('time', 'prediction_timedelta', 'longitude'), -v)},
                    coords={'time': [i0 + td(i) for i in s['inits']], 'prediction_timedelta': [td(l) for l in leads], 'longitude': [0.0, 90.0]})
    if s['perm']:
      ds = ds.transpose('longitude', 'prediction_timedelta', 'time')
    kw = {}
    if case['opts'] == 'proc':
      kw['process_chunk_fn'] = lambda c: c * 2
    if case['opts'] == 'mask':
      kw['add_nan_mask'] = True
    if case['opts'] == 'vals':
      kw['add_values_to_coords'] = True
    if case['opts'] == 'sub':
      kw['interpolation'] = itp.Subsample(['longitude'], 2)
    base = xl.PredictionsFromXarray(ds=ds, **kw)
  cd = 'index' if case['sparse'] else 'init_time'
  lat = td(s['latency'])
  if s['latency'] == int(s['latency']) and case['unit'] == 'h':
    lat = lat.astype('timedelta64[h]')
  if case['sparse'] or case['explicit']:
    return lw.ConstantLatencyWrapper(base, lat, np.array([i0 + td(i) for i in s['inits']]), concat_dim=cd), leads
  return lw.XarrayConstantLatencyWrapper(base, lat, concat_dim=cd), leads


def best(s, q):
  ok = [i for i in s['inits'] if i + s['latency'] <= q]
  return max(ok) if ok else None


@test('P22', cases(), quick=4000)
def most_recent_available_forecast(case, ctx):
  i0 = np.datetime64('2020-01-01', 'ns')
  built = [build(case, j, s) for j, s in enumerate(case['src'])]
  multi = len(built) > 1 or case['force_multi']
  cd = 'index' if case['sparse'] else 'init_time'
  ld = lw.MultipleConstantLatencyWrapper([b for b, _ in built], concat_dim=cd) if multi else built[0][0]
  qs = [q + (0.5 if case['halfq'] else 0.0) for q in case['q']]
  qt = np.array([i0 + td(q) for q in qs])
  lt = np.array([td(l) for l in case['leads']])
  if case['unit'] == 'h':
    lt = lt.astype('timedelta64[h]')
  want, unavailable, offfile = {}, False, False
  for q in qs:
    opts = []
    for j, s in enumerate(case['src']):
      b = best(s, q)
      if b is not None:
        opts.append((b, s['latency'], j))
    if not opts:
      unavailable = True
      continue
    bi = max(o[0] for o in opts)
    bl = max(o[1] for o in opts if o[0] == bi)
    js = [o[2] for o in opts if o[0] == bi and o[1] == bl]  # full ties: any of them
    want[q] = (bi, js)
    for j in js:
      if any((l + q - bi) not in built[j][1] for l in case['leads']):
        offfile = True
  # The choice itself.
  for j, (b, _) in enumerate(built):
    for q, t in zip(qs, qt):
      e = best(case['src'][j], q)
      if e is None:
        expect_raises(lambda: b.get_available_init_time(t), Exception, f'source {j}: query before any forecast is available')
      else:
        g = b.get_available_init_time(t)
        check(g == i0 + td(e), lambda: f'source {j} (inits {case["src"][j]["inits"]}, latency {case["src"][j]["latency"]} h), query {q} h: used {g}, expected {i0 + td(e)}')
  ctx.label(f'sources={len(built)}', f'unavailable={unavailable}', f'offfile={offfile}', f"sparse={case['sparse']}", 'opts=' + case['opts'])
  if unavailable:
    expect_raises(lambda: ld.load_chunk(qt, lt), Exception, 'a query before any forecast is available')
    return
  tie = any(len(js) > 1 for _, js in want.values())
  if offfile:
    if not tie:
      expect_raises(lambda: ld.load_chunk(qt, lt), Exception, 'a stretched lead time that is not on file')
    return
  ctx.nt(any(bi != q for q, (bi, _) in want.items()))
  if not multi:
    expect_raises(lambda: ld.load_chunk(qt), ValueError, 'no lead times')
  got = ld.load_chunk(qt, lt)
  val = lambda q, l: [code(j, want[q][0], l + q - want[q][0]) for j in want[q][1]]
  if case['sparse']:
    g = got['v']
    n = len(qs) * len(lt) * 2
    check(g.dims == ('index',) and g.size == n, lambda: f'{g.sizes} for {n} expected rows')
    k = 0
    for q, t in zip(qs, qt):
      for l in case['leads']:
        for s in range(2):
          r = g.isel(index=k)
          check(r['init_time'].values == t and r['lead_time'].values == td(l) and int(r['station']) == s, f'row {k}: labels {r.init_time.values} {r.lead_time.values}')
          check(float(r) in [x + s / 8.0 for x in val(q, l)], lambda: f'row {k} (query {q} h + {l} h): {float(r)}, expected {val(q, l)}')
          k += 1
    return
  for v, sign in (('v', 1.0), ('w', -1.0)):
    g = got[v]
    check(set(g.dims) == {'init_time', 'lead_time', 'longitude'}, f'dims {g.dims}')
    same_np(g['init_time'].values, qt, 'queried init times')
    same_np(g['lead_time'].values.astype(NS), lt.astype(NS), 'queried lead times')
    lons = [0.0] if case['opts'] == 'sub' else [0.0, 90.0]
    same_np(g['longitude'].values, np.array(lons), 'longitudes')
    x = g.transpose('init_time', 'lead_time', 'longitude').values
    mul = 2.0 if case['opts'] == 'proc' else 1.0
    for a, q in enumerate(qs):
      for b, l in enumerate(case['leads']):
        for c in range(len(lons)):
          e = [sign * mul * (y + 0.5 * c) for y in val(q, l)]
          if x[a, b, c] not in e:
            fail(f'query {q} h, lead {l} h: got {x[a, b, c]}, expected {e} (init {want[q][0]} h, stretched lead {l + q - want[q][0]} h)')
    if case['opts'] == 'mask':
      check('mask' in g.coords and bool(g['mask'].all()) and set(g['mask'].dims) == set(g.dims), 'mask of the wrapped loader')
    if case['opts'] == 'vals':
      check('values_as_coord' in g.coords, 'value coordinates of the wrapped loader are lost')
      same_np(g['values_as_coord'].transpose('init_time', 'lead_time', 'longitude').values, x, 'value coordinates')
