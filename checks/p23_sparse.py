"""P23: sparse observations are matched to forecasts completely and only once."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, expect_raises
from wbxv.core import test
from weatherbenchX.data_loaders import sparse_parquet as sp

RULE = ('observation tables of 0-40 rows (several stations, duplicates, missing values, times off their partition by up to the file '
        'tolerance) partitioned by hour, day or month around month, year and leap-day boundaries; exact lead times, lead-time slices, '
        'no lead times, symmetric and asymmetric tolerances, end-point options, duplicate removal, missing-value removal; generic and '
        'METAR loaders; non-trivial = some but not all observations are in a requested window')
ASSUMPTIONS = ['every partition file in the range of the request (and a margin) exists, as documented',
               'an observation is at most file_tolerance away from its partition',
               'the end of a window is included only with include_slice_end_time; a slice (a, b) asks for the lead times [a, b)',
               'which of several equally close duplicates is kept is not specified']
UNITS = {'hour': 'h', 'day': 'D', 'month': 'M'}


def mins(m):
  return np.timedelta64(int(m), 'm').astype('timedelta64[ns]')


@st.composite
def cases(draw, metar=False):
  part = draw(st.sampled_from(['hour', 'day', 'month', 'day']))
  base = draw(st.sampled_from(['2020-02-28T22', '2020-12-31T21', '2021-01-31T12', '2020-06-15T00', '2019-02-28T23']))
  mode = draw(st.sampled_from(['exact', 'exact', 'exact', 'none', 'slice']))
  span = 8 if part == 'hour' else 40
  ft = draw(st.sampled_from([60, 60, 30, 120]))
  tol = None
  if mode != 'slice':
    tol = draw(st.sampled_from([None, 30, 60, (-60, 0), (0, 30), (-15, 45), 180]))
  return dict(part=part, base=base, mode=mode, ft=ft, tol=list(tol) if isinstance(tol, tuple) else tol,
              nobs=draw(st.sampled_from([0, 1, 5, 20, 40, 40])), seed=draw(gen.seeds), grid=draw(st.sampled_from([60, 30, 15, 1])),
              init=draw(st.lists(st.integers(0, span // 2), min_size=1, max_size=3, unique=True)),
              leads=draw(st.lists(st.sampled_from([0, 1, 2, 3] if part == 'hour' else [0, 1, 6, 12, 24]), min_size=1, max_size=3, unique=True)),
              slice=draw(st.sampled_from([(0, 60), (0, 180), (0, 90), (60, 120), (60, 240), (0, 360), (-60, 60)])), incl=draw(st.booleans()),
              split=draw(st.booleans()), dropna=draw(st.booleans()), nan=draw(st.sampled_from([0.0, 0.3])),
              dup=draw(st.booleans()) if mode != 'slice' else False, pick=draw(st.sampled_from(['obs', 'nominal', None])),
              timedim=draw(st.sampled_from(['timeObs', 'timeObs', 'timeNominal'])), rename=draw(st.booleans()), pre=draw(st.booleans()),
              nst=draw(st.integers(1, 5)), mask=draw(st.booleans()), tup=draw(st.booleans()), span=span, metar=metar,
              coords=draw(st.booleans()), blank=draw(st.sampled_from([False, False, True])))


METAR = {
    'seaLevelPress': 'mean_sea_level_pressure', 'temperature': '2m_temperature', 'dewpoint': '2m_dewpoint_temperature',
    'windSpeed': '10m_wind_speed', 'windGust': '10m_wind_gust', 'windDir': '10m_wind_direction',
    'minTemp24Hour': 'min_2m_temperature_24hr', 'maxTemp24Hour': 'max_2m_temperature_24hr',
    'precip1Hour': 'total_precipitation_1hr', 'precip3Hour': 'total_precipitation_3hr',
    'precip6Hour': 'total_precipitation_6hr', 'precip24Hour': 'total_precipitation_24hr'}
FLAGS = np.array(['S', 'V', 'C', 'Z', 'B', 'X', 'Q', 'k', ''])


def table(case):
  """Observation table; every row within the file tolerance of its nominal (partition) time."""
  r = gen.rng(case['seed'])
  n = case['nobs']
  base = np.datetime64(case['base'], 'ns')
  t = base + np.array([mins(0)] * n, 'timedelta64[ns]') + (r.integers(-3 * 60, (case['span'] + 3) * 60, size=n) // case['grid'] * case['grid']).astype('timedelta64[m]').astype('timedelta64[ns]')
  off = r.integers(-case['ft'], case['ft'] + 1, size=n).astype('timedelta64[m]')
  nominal = (t + off).astype('datetime64[h]')
  # Keep |obs - nominal| within the tolerance after rounding to the hour.
  bad = np.abs(t - nominal.astype('datetime64[ns]')) > mins(case['ft'])
  nominal = np.where(bad, t.astype('datetime64[h]'), nominal)
  bad = np.abs(t - nominal.astype('datetime64[ns]')) > mins(case['ft'])
  t = np.where(bad, nominal.astype('datetime64[ns]'), t)
  raw = [str(v) for v in gen.rng(case['seed'] + 1).choice(sorted(METAR), 2, replace=False)] if case['metar'] else ['a', 'b']
  df = dict(timeObs=t.astype('datetime64[ns]'), timeNominal=nominal.astype('datetime64[ns]'),
            stationName=np.array([f'st{i}' for i in r.integers(0, case['nst'], size=n)], dtype=object), rowid=np.arange(n))
  for v in raw:
    x = np.round(r.normal(size=n) * 8) / 8
    df[v] = np.where(r.uniform(size=n) < case['nan'], np.nan, x).astype('float32')
  if case['metar']:
    for v in raw:
      df[v + 'DD'] = FLAGS[r.integers(0, len(FLAGS), size=n)].astype(object)
    df['latitude'] = r.integers(-90, 91, size=n).astype('float32')
    df['longitude'] = r.integers(-180, 360, size=n).astype('float32')
    df['elevation'] = np.where(r.uniform(size=n) < 0.3, 9999.0, r.integers(-10, 4000, size=n)).astype('float32')
  return pd.DataFrame(df), raw


def partition_files(case, df, root, lo, hi):
  u = UNITS[case['part']]
  a, b = lo.astype(f'datetime64[{u}]'), hi.astype(f'datetime64[{u}]')
  m = 2 if u == 'h' else 1
  keys = df['timeNominal'].values.astype(f'datetime64[{u}]')
  for k in np.arange(a - m, b + m + 1):
    d = k.item()
    y, mo = d.year, d.month
    if u == 'M':
      fn = f'year={y}/month={mo}/{y}-{mo:02d}.parquet'
    elif u == 'D':
      fn = f'year={y}/month={mo}/day={d.day}/{y}-{mo:02d}-{d.day:02d}.parquet'
    else:
      fn = f'year={y}/month={mo}/day={d.day}/hour={d.hour}/{y}-{mo:02d}-{d.day:02d}T{d.hour:02d}.parquet'
    fn = os.path.join(root, fn)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    rows = df[keys == k]
    # (A request that such files alone answer can fail: see the known findings, which have blank='all'.)
    if not len(rows) and (case['blank'] == 'all' or case['blank'] and not case['mask'] and not case['dup'] and len(df) and case['mode'] != 'slice'):
      rows = pd.DataFrame({c: np.array([], object) for c in df.columns})  # An empty file does not know its types.
    rows.to_parquet(fn, index=False)


def windows(case):
  """[(label init, label lead, window start, window end or None, valid)] per requested pair."""
  base = np.datetime64(case['base'], 'ns')
  init = [base + mins(60 * i) for i in case['init']]
  out = []
  for i in init:
    if case['mode'] == 'slice':
      a, b = case['slice']
      out.append((i, None, i + mins(a), i + mins(b), i))
      continue
    for l in (case['leads'] if case['mode'] == 'exact' else [None]):
      v = i if l is None else i + mins(60 * l)
      if case['tol'] is None:
        w = (v, None)
      else:
        t0, t1 = case['tol'] if isinstance(case['tol'], list) else (-case['tol'], case['tol'])
        w = (v + mins(t0), v + mins(t1))
      out.append((i, None if l is None else mins(60 * l), w[0], w[1], v))
  return init, out


@test('P23', cases(), quick=2400)
def generic_observations(case, ctx):
  run(case, ctx)


@test('P23', cases(metar=True), quick=1200)
def metar_observations(case, ctx):
  run(dict(case, rename=True, coords=True), ctx)


def run(case, ctx):
  df, raw = table(case)
  init, wins = windows(case)
  hours = mins(case['ft'] + 60)
  lo = min(w[2] for w in wins) - hours
  hi = max(w[3] if w[3] is not None else w[2] for w in wins) + hours
  root = tempfile.mkdtemp(prefix='wbxv_p23_')
  try:
    partition_files(case, df, root, lo, hi)
    ld, names = make_loader(case, root, raw)
    lead = None
    if case['mode'] == 'exact':
      lead = np.array([mins(60 * l) for l in case['leads']])
    elif case['mode'] == 'slice':
      lead = slice(mins(case['slice'][0]), mins(case['slice'][1]))
    got = ld.load_chunk(np.array(init), lead)
  finally:
    shutil.rmtree(root)
  judge(case, ctx, got, df, raw, names, wins)


def make_loader(case, root, raw):
  kw = dict(time_dim=case['timedim'], partitioned_by=case['part'], split_variables=case['split'], dropna=case['dropna'],
            include_slice_end_time=case['incl'], file_tolerance=mins(case['ft']), add_nan_mask=case['mask'])
  if case['tol'] is not None:
    kw['tolerance'] = tuple(mins(x) for x in case['tol']) if isinstance(case['tol'], list) else mins(case['tol'])
  if case['dup']:
    kw['remove_duplicates'] = True
    kw['pick_closest_duplicate_by'] = {'obs': 'timeObs', 'nominal': 'timeNominal', None: None}[case['pick']]
  if case['pre']:
    def pre(d):
      d = d.copy()
      d[raw[0]] = d[raw[0]] * 2
      return d
    kw['preprocessing_fn'] = pre
  seq = tuple if case['tup'] else list
  if case['metar']:
    names = [METAR[v] for v in raw]
    return sp.METARFromParquet(root, seq(names), **kw), names
  names = list(raw)
  if case['rename']:
    names = ['A', 'b']
    kw['rename_variables'] = {'a': 'A'}
  if case['dup']:
    kw['observation_dim'] = 'stationName'
  cv = ['stationName', 'rowid'] if case['coords'] else ['rowid']
  return sp.SparseObservationsFromParquet(root, variables=seq(names), coordinate_variables=seq(cv), **kw), names


def expected(case, df, raw, names, wins):
  """Per window: groups of acceptable rows; one row of every group is expected."""
  t = df[case['timedim']].values.astype('datetime64[ns]')
  groups = []
  for i, l, a, b, v in wins:
    if b is None:
      ok = t == a
    elif case['incl']:
      ok = (t >= a) & (t <= b)
    else:
      ok = (t >= a) & (t < b)
    rows = np.flatnonzero(ok)
    if not case['dup']:
      groups += [(i, l, [k]) for k in rows]
      continue
    for s in sorted(set(df['stationName'].values[rows])):
      mine = [k for k in rows if df['stationName'].values[k] == s]
      if case['pick'] is not None:
        p = df[{'obs': 'timeObs', 'nominal': 'timeNominal'}[case['pick']]].values.astype('datetime64[ns]')
        d = [abs(p[k] - v) for k in mine]
        mine = [k for k, x in zip(mine, d) if x == min(d)]
      groups.append((i, l, mine))
  return groups


def values(case, df, raw, names):
  X = {}
  for n, v in zip(names, raw):
    x = df[v].values.astype(float)
    if case['pre'] and v == raw[0]:
      x = x * 2
    if case['metar']:
      x = np.where(np.isin(df[v + 'DD'].values.astype(str), ['Z', 'B', 'X', 'Q', 'k']), np.nan, x)
    X[n] = x
  return X


def judge(case, ctx, got, df, raw, names, wins):
  groups = expected(case, df, raw, names, wins)
  X = values(case, df, raw, names)
  t = df[case['timedim']].values.astype('datetime64[ns]')
  nrow = {k for _, _, g in groups for k in g}
  ctx.nt(0 < len(nrow) < len(df))
  ctx.label('mode=' + case['mode'], 'part=' + case['part'], f"tol={case['tol']}", f"dup={case['dup']}", f'empty={not groups}', f"split={case['split']}",
            f"dropna={case['dropna']}")
  check(set(map(str, got)) == set(names), lambda: f'variables {list(got)} expected {names}')
  for n in names:
    da = got[n]
    check(da.dims == ('index',), f'dims {da.dims}')
    if case['dropna']:
      keepf = (lambda k: not np.isnan(X[n][k])) if case['split'] else (lambda k: not any(np.isnan(X[m][k]) for m in names))
    else:
      keepf = lambda k: True
    # Rows seen, identified by their own labels.
    seen = {}
    x = da.values
    vt = da['valid_time'].values.astype('datetime64[ns]')
    has = case['mode'] != 'none'
    it = da['init_time'].values.astype('datetime64[ns]') if has else [None] * len(x)
    lt = da['lead_time'].values.astype('timedelta64[ns]') if has else [None] * len(x)
    if not has:
      check('init_time' not in da.coords and 'lead_time' not in da.coords, 'unexpected time labels')
    idc = da['rowid'].values if not case['metar'] else None
    rows = []
    for j in range(len(x)):
      rows.append((it[j], lt[j], None if idc is None else int(idc[j]), vt[j], float(x[j])))
      if idc is not None:
        k = int(idc[j])
        check(vt[j] == t[k], lambda: f'observation {k}: valid_time {vt[j]}, expected {t[k]}')
        same = (np.isnan(x[j]) and np.isnan(X[n][k])) or x[j] == X[n][k]
        check(same, lambda: f'observation {k}: value {x[j]}, expected {X[n][k]}')
        if case['coords']:
          check(da['stationName'].values[j] == df['stationName'].values[k], f'observation {k}: station')
      if case['mask']:
        check(bool(da['mask'].values[j]) == (not np.isnan(x[j])), 'mask')
    match(case, n, rows, groups, keepf, X[n], t, df, da)


def match(case, n, rows, groups, keepf, xv, t, df, da):
  """Every group is represented by exactly one row (unless dropped), and no row is left over.

  Rows and groups need not be uniquely labelled (ties between duplicates, no time labels), so this asks for an
  assignment. One covering all groups that must be present and one covering all rows imply one that covers both.
  """
  def label(i, k, l):
    if case['mode'] == 'none':
      return (None, None)
    return (i, l if l is not None else t[k] - i)
  by_time = {}
  for j, r in enumerate(rows):
    by_time.setdefault((r[0], r[1], r[3]), []).append(j)
  adj = []
  for i, l, g in groups:
    hits = []
    for k in g:
      if not keepf(k):
        continue
      for j in by_time.get(label(i, k, l) + (t[k],), []):
        rid, x = rows[j][2], rows[j][4]
        if rid == k if rid is not None else metar_row(da, j, df, k, xv, x):
          hits.append(j)
    adj.append(hits)
  radj = [[] for _ in rows]
  for gi, hits in enumerate(adj):
    for j in hits:
      radj[j].append(gi)
  must = [gi for gi, (_, _, g) in enumerate(groups) if all(keepf(k) for k in g)]
  miss = uncovered(must, adj)
  if miss is not None:
    i, l, g = groups[miss]
    fail(f'{n}: no observation for initialization {i}, lead {l}: expected row {g} at {t[g[0]]} (got {len(rows)} rows for {len(groups)} expected)')
  extra = uncovered(range(len(rows)), radj)
  if extra is not None:
    fail(f'{n}: unexpected row {rows[extra]} ({len(rows)} returned, {len(groups)} expected)')


def uncovered(left, adj):
  """None if a matching covers all of `left`, else an element that cannot be covered."""
  owner = {}

  def augment(u, seen):
    for v in adj[u]:
      if v not in seen:
        seen.add(v)
        if v not in owner or augment(owner[v], seen):
          owner[v] = u
          return True
    return False
  for u in left:
    if not augment(u, set()):
      return u
  return None


def metar_row(da, j, df, k, xv, x):
  e = df['elevation'].values[k]
  e = np.nan if e >= 9999 else e
  ge = float(da['elevation'].values[j])
  return ((x == xv[k]) or (np.isnan(x) and np.isnan(xv[k]))) and da['stationName'].values[j] == df['stationName'].values[k] and \
      float(da['latitude'].values[j]) == float(df['latitude'].values[k]) and \
      float(da['longitude'].values[j]) == float(np.mod(df['longitude'].values[k], 360)) and (ge == e or np.isnan(ge) and np.isnan(e))


@test('P23', cases(), quick=60)
def invalid_options_rejected(case, ctx):
  ctx.nt()
  mk = lambda **kw: sp.SparseObservationsFromParquet('/nonexistent', variables=['a'], **dict(dict(time_dim='t', partitioned_by='day'), **kw))
  expect_raises(lambda: mk(partitioned_by='year'), ValueError, 'unknown partitioning')
  expect_raises(lambda: mk(tolerance=(mins(30), mins(30 - case['nobs']))), ValueError, 'empty tolerance range')
  expect_raises(lambda: mk(remove_duplicates=True), ValueError, 'duplicate removal without observation_dim')
