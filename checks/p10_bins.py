"""P10: time, value and set bins contain exactly the matching samples."""
import datetime

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, expect_raises, fail, same_da, same_np
from wbxv.core import test
from weatherbenchX import aggregation, binning

RULE = ('random samples with time, duration, string and number coordinates (dimensions, attached 1-d/2-d/scalar '
        'coordinates), units, edges, sets and global/complement options; non-trivial = at least two bins with '
        'different members')
ASSUMPTIONS = ['coordinates have no missing values; sets are sequences (list, tuple, range) or single values (documented types)',
               'all dims of the binned coordinate are reduced (its name becomes the bin dimension)']


def py_unit(t, unit):
  """Calendar unit of a timestamp, independently of xarray."""
  d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))
  return {'second': d.second, 'minute': d.minute, 'hour': d.hour, 'day': d.day, 'month': d.month, 'year': d.year,
          'dayofyear': d.timetuple().tm_yday, 'dayofweek': d.weekday(), 'quarter': (d.month - 1) // 3 + 1,
          'season': {12: 'DJF', 1: 'DJF', 2: 'DJF', 3: 'MAM', 4: 'MAM', 5: 'MAM', 6: 'JJA', 7: 'JJA', 8: 'JJA',
                     9: 'SON', 10: 'SON', 11: 'SON'}[d.month]}[unit]


def py_elapsed(s, unit):
  div = {'second': 1, 'minute': 60, 'hour': 3600, 'day': 86400, 'week': 604800, 'year': 31536000}[unit]
  return s // div


T_UNITS = ['hour', 'month', 'season', 'day', 'dayofyear', 'year', 'minute', 'dayofweek', 'quarter', 'second']
D_UNITS = ['hour', 'day', 'minute', 'second', 'week', 'year']

# seconds since 1970: leap days, year ends, odd times
stamps = st.one_of(
    st.integers(0, 40).map(lambda k: 1582848000 + k * 21600),  # around 2020-02-28
    st.integers(0, 40).map(lambda k: 1577750400 + k * 3600),   # around 2019-12-31
    st.integers(946684800, 1700000000))
durations = st.one_of(st.integers(0, 60).map(lambda h: h * 6 * 3600), st.integers(-5, 40).map(lambda h: h * 3600 + 1800),
                      st.integers(-100000, 80000000))
strings = st.sampled_from(['KSFO', 'EGLL', 'A', '0', 'global', 'ü', ''])
numbers = st.one_of(st.integers(-4, 8).map(float), st.sampled_from([0.5, 0.1, 1e6, -2.25]))


@st.composite
def samples(draw, kinds):
  kind = draw(st.sampled_from(kinds))
  el = dict(time=stamps, td=durations, str=strings, num=numbers, int=st.integers(-3, 9), secs=st.integers(0, 200000))[kind]
  layout = draw(st.sampled_from(['attached', 'attached2', 'dim', 'scalar']))
  n = dict(attached=draw(st.integers(1, 8)), attached2=6, dim=draw(st.integers(1, 6)), scalar=1)[layout]
  pool = draw(st.lists(el, min_size=1, max_size=n, unique=True))
  if layout == 'dim':
    vals = pool
  else:
    vals = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
  return dict(kind=kind, layout=layout, vals=vals, seed=draw(gen.seeds), keep=draw(st.sampled_from([0, 2])), order=draw(st.booleans()))


def coord_values(c):
  v = c['vals']
  if c['kind'] == 'time':
    return np.array(v, 'datetime64[s]').astype('datetime64[ns]')
  if c['kind'] == 'td':
    return np.array(v, 'timedelta64[s]').astype('timedelta64[ns]')
  if c['kind'] == 'str':
    return np.array(v, dtype=str)
  return np.array(v)


def stat_of(c, name):
  """Statistic whose coordinate `name` holds the sample values."""
  v = coord_values(c)
  lay = c['layout']
  if lay == 'dim':
    dims, shape, coords = [name], [len(v)], {name: v}
  elif lay == 'attached':
    dims, shape, coords = ['index'], [len(v)], {name: ('index', v)}
  elif lay == 'attached2':
    dims, shape, coords = ['i', 'j'], [3, 2], {name: (('i', 'j'), v.reshape(3, 2))}
  else:
    dims, shape, coords = ['index'], [3], {name: ((), v[0])}
  if c['keep']:
    dims, shape = dims + ['level'], shape + [c['keep']]
    coords['level'] = [500, 850]
  da = xr.DataArray(gen.rng(c['seed']).integers(1, 100, size=shape).astype(float), dims=dims, coords=coords)
  if lay != 'dim' and len(v) == shape[0] and lay == 'attached':
    da = da.assign_coords(other=('index', np.arange(len(v))))
  return da.transpose(*dims[::-1]) if c['order'] else da


def sample_index(c, da, pos):
  """Which sample value belongs to a position of the statistic."""
  p = dict(zip(da.dims, pos))
  if c['layout'] == 'dim':
    return p[[d for d in da.dims if d not in ('level',)][0]]
  if c['layout'] == 'attached':
    return p['index']
  if c['layout'] == 'attached2':
    return p['i'] * 2 + p['j']
  return 0


def verify(binner, c, da, dim, labels, member, ctx, what, strlabels=False):
  """labels in order; member(bin_index, raw sample value)."""
  mask = binner.create_bin_mask(da)
  got = mask[dim].values
  if strlabels:
    got = [str(x) for x in got]
    labels = [str(x) for x in labels]
  check(len(got) == len(labels) and all(g == l for g, l in zip(got, labels)), lambda: f'{what}: labels {list(got)} vs {list(labels)}')
  n = len(labels)
  exp = np.zeros((n,) + da.shape, bool)
  for pos in np.ndindex(*da.shape):
    v = c['vals'][sample_index(c, da, pos)]
    for b in range(n):
      exp[(b,) + pos] = member(b, v)
  m = mask.astype(bool)
  m = m.drop_vars([x for x in m.coords if x != dim and x not in m.dims], errors='ignore')
  # Positional broadcast: dims of the statistic keep their order and labels.
  for d in m.dims:
    if d != dim:
      check(d in da.dims, f'{what}: mask has dimension {d}')
      if d in m.coords and d in da.coords:
        same_np(m[d].values, da[d].values, f'{what}: coordinate {d}')
  tmpl = xr.DataArray(exp, dims=[dim + '_b'] + list(da.dims))
  mm = xr.DataArray(m.values, dims=[x if x != dim else dim + '_b' for x in m.dims]).broadcast_like(tmpl).transpose(*tmpl.dims)
  same_np(mm.values, exp, f'{what}: membership (coordinate {c["vals"]})')
  members = {exp[b].tobytes() for b in range(n)}
  ctx.nt(len(members) > 1)
  # Aggregation per bin equals the selected samples alone.
  red = [d for d in da.dims if d != 'level']
  state = aggregation.Aggregator(reduce_dims=red, bin_by=[binner]).aggregate_stat_var(da)
  ax = tuple(da.dims.index(d) for d in red)
  for b in range(n):
    s = np.where(exp[b], da.values, 0).sum(axis=ax)
    w = exp[b].sum(axis=ax).astype(float)
    same_np(state.sum_weighted_statistics.isel({dim: b}).values, s, f'{what}: sum in bin {labels[b]}')
    same_np(state.sum_weights.isel({dim: b}).values, w, f'{what}: weight in bin {labels[b]}')
  return mask


def opt(**kw):
  return st.fixed_dictionaries(kw)


@st.composite
def exact_cases(draw):
  c = draw(samples(['time', 'td', 'str', 'num', 'int']))
  return dict(c=c, glob=draw(st.booleans()))


@test('P10', exact_cases(), quick=900)
def by_exact_coord(case, ctx):
  c = case['c']
  da = stat_of(c, 'key')
  b = binning.ByExactCoord('key', **(dict(add_global_bin=True) if case['glob'] else {}))
  ctx.label(c['kind'], c['layout'], f"global={case['glob']}")
  if c['layout'] == 'dim':
    expect_raises(lambda: b.create_bin_mask(da), AssertionError, 'dimension coordinate')
    return
  if c['layout'] == 'scalar':
    pass
  uniq = sorted(set(c['vals']))
  vals = [coord_values(dict(c, vals=[u]))[0] for u in uniq]
  if case['glob']:
    labels = ['global'] + [str(x) for x in xr.DataArray(np.array(vals)).astype('str').values] if c['kind'] != 'str' else ['global'] + vals
    verify(b, c, da, 'key', labels, lambda k, v: k == 0 or v == uniq[k - 1], ctx, 'ByExactCoord+global', strlabels=True)
  else:
    verify(b, c, da, 'key', vals, lambda k, v: v == uniq[k], ctx, 'ByExactCoord')


@st.composite
def unit_cases(draw):
  c = draw(samples(['time', 'td']))
  return dict(c=c, unit=draw(st.sampled_from(T_UNITS if c['kind'] == 'time' else D_UNITS)), glob=draw(st.booleans()),
              setseed=draw(gen.seeds), name=draw(st.booleans()), tuple=draw(st.booleans()))


def unit_value(c, unit):
  return (lambda v: py_unit(v, unit)) if c['kind'] == 'time' else (lambda v: py_elapsed(v, unit))


@test('P10', unit_cases(), quick=1100)
def by_time_unit(case, ctx):
  c, unit = case['c'], case['unit']
  f = unit_value(c, unit)
  da = stat_of(c, 'when')
  ctx.label(f"{c['kind']}:{unit}", c['layout'], f"global={case['glob']}")
  b = binning.ByTimeUnit(unit, 'when', **(dict(add_global_bin=True) if case['glob'] else {}))
  uniq = sorted({f(v) for v in c['vals']})
  dim = f'when_{unit}'
  if case['glob']:
    conv = (lambda u: u) if c['kind'] == 'time' else float
    labels = ['global'] + [str(conv(u)) for u in uniq]
    verify(b, c, da, dim, labels, lambda k, v: k == 0 or f(v) == uniq[k - 1], ctx, 'ByTimeUnit+global', strlabels=True)
  else:
    verify(b, c, da, dim, uniq, lambda k, v: f(v) == uniq[k], ctx, 'ByTimeUnit')


@test('P10', unit_cases(), quick=900)
def by_time_unit_sets(case, ctx):
  c, unit = case['c'], case['unit']
  f = unit_value(c, unit)
  da = stat_of(c, 'when')
  r = gen.rng(case['setseed'])
  present = sorted({f(v) for v in c['vals']})
  absent = [x for x in ([0, 5, 12, 999] if unit != 'season' else ['DJF', 'XXX']) if x not in present]
  sets = {}
  for i in range(int(r.integers(1, 4))):
    s = [x for x in present if r.uniform() < 0.5] + [x for x in absent if r.uniform() < 0.3]
    if r.uniform() < 0.25 and present:
      sets[f's{i}'] = present[0]  # a single value instead of a sequence
    elif s:
      sets[f's{i}'] = tuple(s) if case['tuple'] else s
    else:
      sets[f's{i}'] = [present[-1]]
  kw = {}
  if case['glob']:
    kw['add_global_bin'] = True
  dim = f'when_{unit}_sets'
  if case['name']:
    kw['bin_dim_name'] = dim = 'groups'
  b = binning.ByTimeUnitSets(sets, unit, 'when', **kw)
  labels = list(sets) + (['global'] if case['glob'] else [])
  as_set = [set(s) if isinstance(s, (list, tuple)) else {s} for s in sets.values()]
  ctx.label(f"{c['kind']}:{unit}", c['layout'], f"global={case['glob']}")
  verify(b, c, da, dim, labels, lambda k, v: k >= len(sets) or f(v) in as_set[k], ctx, 'ByTimeUnitSets')


@st.composite
def seconds_cases(draw):
  c = draw(samples(['secs']))
  unit = draw(st.sampled_from(['hour', 'minute', 'second']))
  return dict(c=c, unit=unit, bins=draw(st.one_of(st.none(), st.lists(st.integers(0, 60), min_size=1, max_size=5, unique=True))),
              asarray=draw(st.booleans()))


@test('P10', seconds_cases(), quick=500)
def by_time_unit_from_seconds(case, ctx):
  c, unit = case['c'], case['unit']
  da = stat_of(c, 'sec')
  bins = case['bins']
  b = binning.ByTimeUnitFromSeconds(unit, 'sec', *([] if bins is None else [np.array(bins) if case['asarray'] else bins]))
  labels = bins if bins is not None else list(range(24 if unit == 'hour' else 60))
  ctx.label(unit, f'default={bins is None}', c['layout'])
  verify(b, c, da, f'sec_{unit}', labels, lambda k, v: py_elapsed(v, unit) == labels[k], ctx, 'ByTimeUnitFromSeconds')
  expect_raises(lambda: binning.ByTimeUnitFromSeconds('day', 'sec').create_bin_mask(da), ValueError, 'unsupported unit')


@st.composite
def edges_cases(draw):
  c = draw(samples(['num', 'int', 'td', 'time']))
  c['layout'] = 'attached' if c['layout'] == 'dim' else c['layout']
  e = dict(num=st.one_of(st.integers(-4, 8).map(float), st.sampled_from([0.5, 0.1])), int=st.integers(-3, 9), td=durations, time=stamps)[c['kind']]
  edges = sorted(set(draw(st.lists(st.one_of(e, st.sampled_from(c["vals"])), min_size=1, max_size=5, unique=True))))
  return dict(c=c, edges=edges, glob=draw(st.booleans()))


@test('P10', edges_cases(), quick=900)
def by_value_intervals(case, ctx):
  c = case['c']
  da = stat_of(c, 'val')
  edges = case['edges']
  np_edges = coord_values(dict(c, vals=edges))
  b = binning.ByCoordBins('val', np_edges, **(dict(add_global_bin=True) if case['glob'] else {}))
  n = len(edges) - 1
  on_edge = any(v in edges for v in c['vals'])
  ctx.label(c['kind'], c['layout'], f"global={case['glob']}", f'on_edge={on_edge}')
  labels = list(np_edges[:-1])
  if case['glob']:
    labels = [str(x) for x in labels] + ['global']
  verify(b, c, da, 'val', labels, lambda k, v: k >= n or edges[k] <= v < edges[k + 1], ctx, 'ByCoordBins', strlabels=case['glob'])


@st.composite
def set_cases(draw):
  c = draw(samples(['str', 'int', 'num', 'td']))
  return dict(c=c, setseed=draw(gen.seeds), comp=draw(st.booleans()), glob=draw(st.booleans()), tuple=draw(st.booleans()))


@test('P10', set_cases(), quick=900)
def by_sets(case, ctx):
  c = case['c']
  da = stat_of(c, 'key')
  r = gen.rng(case['setseed'])
  present = list(dict.fromkeys(c['vals']))
  pool = present + (['ZZZZ'] if c['kind'] == 'str' else [77])
  # Values next to present ones that are not equal to them (longer names, fractions).
  near = {'str': lambda x: x + 'X', 'int': lambda x: x + 0.5, 'num': lambda x: x + 0.001, 'td': lambda x: x + 1}[c['kind']]
  pool += [y for y in map(near, present) if y not in present]
  raw = {}
  for i in range(int(r.integers(1, 4))):
    s = [x for x in pool if r.uniform() < 0.5] or [pool[0]]
    raw[f'g{i}'] = s[0] if r.uniform() < 0.25 else s
  def conv(x):
    one = lambda y: coord_values(dict(c, vals=[y]))[0]
    if isinstance(x, list):
      return tuple(one(y) for y in x) if case['tuple'] else [one(y) for y in x]
    return one(x) if c['kind'] != 'str' else x
  kw = {}
  if case['comp']:
    kw['add_set_complements'] = True
  if case['glob']:
    kw['add_global_bin'] = True
  b = binning.BySets({k: conv(v) for k, v in raw.items()}, 'key', 'grp', **kw)
  labels, preds = [], []
  for k, s in raw.items():
    S = set(s) if isinstance(s, list) else {s}
    labels.append(k)
    preds.append(lambda v, S=S: v in S)
    if case['comp']:
      labels.append(f'not_in_{k}')
      preds.append(lambda v, S=S: v not in S)
  if case['glob']:
    labels.append('global')
    preds.append(lambda v: True)
  ctx.label(c['kind'], c['layout'], f"comp={case['comp']}", f"global={case['glob']}")
  verify(b, c, da, 'grp', labels, lambda k, v: preds[k](v), ctx, 'BySets')
  expect_raises(lambda: binning.BySets({'a': ['x']}, 'key'), ValueError, 'no bin dimension name')
  expect_raises(lambda: binning.BySets({'a': ['x']}, 'key', 'key'), ValueError, 'bin dimension named like the coordinate')
