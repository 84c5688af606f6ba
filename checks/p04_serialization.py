"""P04: aggregation states survive tree / flat dataset / file round trips."""
import io
import os
import shutil
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_da, same_np
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import categorical, deterministic, probabilistic, wrappers

RULE = ('random nested states (statistic and variable names, dims, coordinate types, missing values, scalars) '
        'through DataTree, Dataset, NetCDF bytes/file and Zarr, then summed and scored; non-trivial = at least '
        'two leaves')
ASSUMPTIONS = ['no name contains "/" or the separator (documented)', 'flat form: leaves share coordinates (documented)',
               'only the NetCDF3 (scipy) and Zarr engines are installed here']

NAMES = st.sampled_from(['SquaredError', 'CRPSSkill_number_skipna_False', 'Error_threshold=0.5', 'TruePositives_[0.0, 1.5]',
                         'a.b.c', 'sum_weights', 'sum_weighted_statistics', 'x', '2m_temperature', 'u-v', 'S(1)', 'WindVector'])
DIMS = ['init_time', 'lead_time', 'region', 'latitude', 'number', 'station']


def coord(d, n, variant=0):
  if d == 'init_time':
    return gen.times(n, step_h=7 + variant)
  if d == 'lead_time':
    return gen.h2td(np.arange(n) * 6 + 3 * variant)
  if d in ('region', 'station'):
    return np.array([f'{d}_{i + variant}é' if i % 2 else f'r{i}' for i in range(n)])
  if d == 'latitude':
    return np.linspace(-90, 90, n) if n > 1 else np.array([0.25])
  return np.arange(n)


@st.composite
def states(draw, flat=True):
  sizes = {d: draw(st.sampled_from([2, 1, 3])) for d in DIMS}
  stats = draw(st.lists(NAMES, min_size=1, max_size=3, unique=True))
  tree = []
  for s in stats:
    vs = draw(st.lists(NAMES, min_size=0 if not flat else 1, max_size=3, unique=True))
    tree.append([s, [dict(name=v, dims=draw(st.permutations(DIMS))[:draw(st.sampled_from([2, 1, 3, 0]))],
                          spec=draw(gen.array_spec(('normal', 'int', 'wide'), (0.0, 0.2), ('float64', 'float32', 'int64'))),
                          variant=0 if flat else draw(st.integers(0, 2))) for v in vs]])
  return dict(sizes=sizes, tree=tree, scalar=draw(st.booleans()), aux=draw(st.booleans()), fname=draw(st.booleans()))


def build_state(case, salt=0):
  trees = ({}, {})
  k = 0
  for s, vs in case['tree']:
    for which in range(2):
      trees[which][s] = {}
    for v in vs:
      sh = [case['sizes'][d] for d in v['dims']]
      for which in range(2):
        k += 1
        spec = dict(v['spec'])
        if which == 1 or spec['dtype'] == 'int64':
          spec['nan'] = 0
        if which == 1:
          spec['kind'] = 'unif'
        if spec['dtype'] == 'int64':
          spec['kind'] = 'int'
        da = xr.DataArray(gen.build(sh, spec, salt + k), dims=v['dims'],
                          coords={d: coord(d, case['sizes'][d], v['variant']) for d in v['dims']},
                          name=v['name'] if case['fname'] else None)
        if case['aux'] and 'latitude' in v['dims']:
          da = da.assign_coords(band=('latitude', np.array(list('abcdef')[:case['sizes']['latitude']])))
        if case['scalar']:
          da = da.assign_coords(level=500)
        trees[which][s][v['name']] = da
  return aggregation.AggregationState(*trees)


def same_state(a, b, what):
  for which in ('sum_weighted_statistics', 'sum_weights'):
    x, y = getattr(a, which), getattr(b, which)
    check(set(x) == set(y), lambda: f'{what} {which}: statistics {sorted(x)} vs {sorted(y)}')
    for s in y:
      check(set(x[s]) == set(y[s]), lambda: f'{what} {which}/{s}: variables {sorted(x[s])} vs {sorted(y[s])}')
      for v in y[s]:
        same_da(x[s][v], y[s][v], f'{what} {which}/{s}/{v}', rtol=0, atol=0, coords='all')
        check(x[s][v].dtype.kind == y[s][v].dtype.kind, lambda: f'{what} {which}/{s}/{v}: dtype {x[s][v].dtype}')


def follow_up(got, st0, case, what):
  """Means and sums with a further partial result are identical."""
  other = build_state(case, 1000)
  if case['tree'] and all(vs for _, vs in case['tree']):
    same_state(got + other, st0 + other, what + ' + more')
    a, b = got.mean_statistics(), st0.mean_statistics()
    for s in b:
      for v in b[s]:
        same_da(a[s][v], b[s][v], f'{what} mean {s}/{v}', rtol=0, atol=0, coords='all')


@test('P04', states(flat=False), quick=600)
def tree_form(case, ctx):
  st0 = build_state(case)
  t = st0.to_data_tree()
  got = aggregation.AggregationState.from_data_tree(t)
  n = sum(len(v) for _, v in case['tree'])
  ctx.nt(n > 1)
  ctx.label(f'leaves={n}', f"scalar={case['scalar']}")
  same_state(got, st0, 'tree')
  follow_up(got, st0, case, 'tree')
  same_state(st0, build_state(case), 'original')
  for s, vs in case['tree']:
    for v in vs:
      one = aggregation.AggregationState(st0.sum_weighted_statistics[s][v['name']], st0.sum_weights[s][v['name']])
      back = aggregation.AggregationState.from_data_tree(one.to_data_tree())
      same_da(back.sum_weighted_statistics, one.sum_weighted_statistics, 'single array', rtol=0, atol=0, coords='all')
      same_da(back.sum_weights, one.sum_weights, 'single array weights', rtol=0, atol=0, coords='all')


@test('P04', states(flat=True), quick=600)
def flat_form(case, ctx):
  st0 = build_state(case)
  sep = '#' if case['fname'] else '@@'
  ds = st0.to_dataset() if sep == '#' else st0.to_dataset(separator=sep)
  n = sum(len(v) for _, v in case['tree'])
  ctx.nt(n > 1)
  ctx.label(f'leaves={n}')
  check(len(ds.data_vars) == 2 * n, lambda: f'{list(ds.data_vars)}')
  got = (aggregation.AggregationState.from_dataset(ds) if sep == '#'
         else aggregation.AggregationState.from_dataset(ds, separator=sep))
  same_state(got, st0, 'flat')
  follow_up(got, st0, case, 'flat')


@st.composite
def file_cases(draw):
  return dict(draw(states(flat=True)), medium=draw(st.sampled_from(['bytes', 'file', 'zarr', 'zarr_tree'])))


@test('P04', file_cases(), quick=250)
def through_files(case, ctx):
  st0 = build_state(case)
  n = sum(len(v) for _, v in case['tree'])
  ctx.nt(n > 1)
  ctx.label('medium=' + case['medium'])
  d = tempfile.mkdtemp(prefix='p04_')
  try:
    if case['medium'] == 'bytes':
      raw = bytes(st0.to_dataset().to_netcdf())
      got = aggregation.AggregationState.from_dataset(xr.load_dataset(io.BytesIO(raw)))
    elif case['medium'] == 'file':
      st0.to_dataset().to_netcdf(os.path.join(d, 'x.nc'))
      got = aggregation.AggregationState.from_dataset(xr.load_dataset(os.path.join(d, 'x.nc')))
    elif case['medium'] == 'zarr':
      st0.to_dataset().to_zarr(os.path.join(d, 'x.zarr'), consolidated=False)
      got = aggregation.AggregationState.from_dataset(xr.open_zarr(os.path.join(d, 'x.zarr'), consolidated=False).load())
    else:
      st0.to_data_tree().to_zarr(os.path.join(d, 'x.zarr'), consolidated=False)
      with xr.open_datatree(os.path.join(d, 'x.zarr'), engine='zarr', consolidated=False) as t:
        got = aggregation.AggregationState.from_data_tree(t.load())
    same_state(got, st0, case['medium'])
    follow_up(got, st0, case, case['medium'])
  finally:
    shutil.rmtree(d, ignore_errors=True)


METRICS = {
    'rmse': lambda: deterministic.RMSE(), 'bias': lambda: deterministic.Bias(),
    'wind': lambda: deterministic.WindVectorRMSE(u_name='u', v_name='v', vector_name='wv'),
    'csi': lambda: wrappers.WrappedMetric(categorical.CSI(), [wrappers.ContinuousToBinary('both', [0.0, 1.0], 'threshold')]),
    'f1': lambda: wrappers.WrappedMetric(categorical.F1Score(), [wrappers.ContinuousToBinary('both', 0.25, 'threshold2')]),
    'ee': lambda: deterministic.ErrorExceedance([0.5, 1.0]),
}


@st.composite
def metric_cases(draw):
  return dict(metrics=draw(st.lists(st.sampled_from(sorted(METRICS)), min_size=1, max_size=4, unique=True)),
              spec=draw(gen.array_spec(('normal', 'int'), (0.0, 0.1))),
              reduce=[d for d in ['init_time', 'lead_time', 'latitude'] if draw(st.booleans())],
              n=[draw(st.integers(1, 3)) for _ in range(3)], how=draw(st.sampled_from(['tree', 'flat', 'bytes'])))


@test('P04', metric_cases(), quick=160)
def metric_values_after_round_trip(case, ctx):
  from weatherbenchX.metrics import base
  dims = ['init_time', 'lead_time', 'latitude']
  coords = {d: coord(d, n) for d, n in zip(dims, case['n'])}
  mk = lambda s: xr.DataArray(gen.build(case['n'], case['spec'], s), dims=dims, coords=coords)
  p, t = {'u': mk(0), 'v': mk(1)}, {'u': mk(2), 'v': mk(3)}
  m = {k: METRICS[k]() for k in case['metrics']}
  st0 = aggregation.Aggregator(reduce_dims=case['reduce']).aggregate_statistics(
      base.compute_unique_statistics_for_all_metrics(m, p, t))
  ctx.nt()
  ctx.label('how=' + case['how'])
  if case['how'] == 'tree':
    got = aggregation.AggregationState.from_data_tree(st0.to_data_tree())
  elif case['how'] == 'flat':
    got = aggregation.AggregationState.from_dataset(st0.to_dataset())
  else:
    ds = st0.to_dataset().drop_attrs(deep=True)
    got = aggregation.AggregationState.from_dataset(xr.load_dataset(io.BytesIO(bytes(ds.to_netcdf()))))
  a, b = got.metric_values(m), st0.metric_values(m)
  check(set(a.data_vars) == set(b.data_vars), lambda: f'{set(a.data_vars)} vs {set(b.data_vars)}')
  for k in b.data_vars:
    same_da(a[k], b[k], f'metric {k}', rtol=0, atol=0, coords='all')
