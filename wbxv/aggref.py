"""Generators and brute-force reference for weighted, binned aggregation."""
import itertools

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from weatherbenchX import binning, weighting

DIMS = ['init_time', 'lead_time', 'latitude', 'longitude', 'number', 'level']


class TableWeighting(weighting.Weighting):
  """User-defined weighting: a fixed table over some dimensions."""

  def __init__(self, table):
    self.table = table

  def weights(self, statistic):
    return self.table


class TableBinning(binning.Binning):
  """User-defined binning: a fixed boolean table over (bin, some dims)."""

  def __init__(self, name, table):
    super().__init__(name)
    self.table = table

  def create_bin_mask(self, statistic):
    return self.table


@st.composite
def agg_cases(draw, nan=(0.0,), masks=False, dtypes=('float64', 'float32', 'int64', 'bool')):
  ndim = draw(st.sampled_from([3, 2, 4, 1]))
  dims = draw(st.permutations(DIMS))[:ndim]
  sizes = {d: draw(st.sampled_from([2, 3, 1, 4])) for d in dims}
  lat = draw(gen.latitudes(min_size=sizes['latitude'], max_size=sizes['latitude'])) if 'latitude' in dims else None
  reduce_dims = [d for d in dims if draw(st.sampled_from([True, True, False]))]
  nvar = draw(st.sampled_from([1, 2, 2, 3]))
  variables = []
  for i in range(nvar):
    vd = list(dims) if i == 0 or draw(st.booleans()) else [
        d for d in dims if draw(st.sampled_from([True, True, True, False]))]
    variables.append(dict(
        dims=vd, order=draw(st.permutations(vd)),
        spec=draw(gen.array_spec(('normal', 'int', 'unif', 'wide', 'binary'), nan, dtypes)),
        mask=(draw(st.one_of(st.none(), st.fixed_dictionaries(dict(
            dims=st.lists(st.sampled_from(vd), unique=True, max_size=len(vd)) if vd else st.just([]),
            seed=gen.seeds, p=st.sampled_from([0.3, 0.1, 0.0, 0.6, 1.0]))))) if masks else None)))
  weights = []
  for _ in range(draw(st.sampled_from([0, 1, 2]))):
    if 'latitude' in dims and sizes['latitude'] > 1 and draw(st.booleans()):
      weights.append('area')
    else:
      weights.append(dict(dims=[d for d in dims if draw(st.booleans())], seed=draw(gen.seeds),
                          zeros=draw(st.booleans())))
  bins = []
  for i in range(draw(st.sampled_from([0, 1, 1, 2]))):
    bins.append(dict(dims=[d for d in dims if draw(st.booleans())], n=draw(st.integers(1, 3)),
                     seed=draw(gen.seeds), p=draw(st.sampled_from([0.5, 0.2, 0.9, 1.0]))))
  return dict(dims=dims, sizes=sizes, lat=lat, reduce=draw(st.permutations(reduce_dims)),
              vars=variables, weights=weights, bins=bins,
              container=draw(st.sampled_from([list, tuple, set])).__name__)


def coord(case, d):
  n = case['sizes'][d]
  if d == 'latitude':
    return np.array(case['lat'])
  if d == 'longitude':
    return np.arange(n) * 10.0
  if d == 'init_time':
    return gen.times(n)
  if d == 'lead_time':
    return gen.h2td(np.arange(n) * 6)
  return np.arange(n)


def stat_arrays(case):
  """name -> DataArray in the generated dimension order (mask attached)."""
  out = {}
  for i, v in enumerate(case['vars']):
    shape = [case['sizes'][d] for d in v['dims']]
    spec = v['spec']
    if spec['dtype'] == 'bool':
      data = gen.build(shape, dict(spec, kind='binary', nan=0, dtype='bool'), i)
    elif spec['dtype'] == 'int64':
      data = gen.build(shape, dict(spec, kind='int', nan=0, dtype='int64'), i)
    else:
      data = gen.build(shape, spec, i)
    da = xr.DataArray(data, dims=v['dims'], coords={d: coord(case, d) for d in v['dims']},
                      name=f'v{i}', attrs={'units': 'K'})
    if v['mask'] is not None:
      m = v['mask']
      md = [d for d in v['dims'] if d in m['dims']]
      mv = gen.rng(m['seed']).uniform(size=[case['sizes'][d] for d in md]) >= m['p']
      da = da.assign_coords(mask=xr.DataArray(mv, dims=md))
    out[f'v{i}'] = da.transpose(*v['order'])
  return out


def weight_tables(case):
  out = []
  for w in case['weights']:
    if w == 'area':
      out.append('area')
      continue
    shape = [case['sizes'][d] for d in w['dims']]
    t = gen.rng(w['seed']).uniform(0.5, 2, size=shape)
    if w['zeros']:
      t = np.where(gen.rng(w['seed'] + 1).uniform(size=shape) < 0.3, 0.0, t)
    out.append(xr.DataArray(t, dims=w['dims'], coords={d: coord(case, d) for d in w['dims']}))
  return out


def bin_tables(case):
  out = []
  for i, b in enumerate(case['bins']):
    shape = [b['n']] + [case['sizes'][d] for d in b['dims']]
    t = gen.rng(b['seed']).uniform(size=shape) < b['p']
    name = f'bin{i}'
    out.append((name, xr.DataArray(
        t, dims=[name] + b['dims'],
        coords={name: [f'b{k}' for k in range(b['n'])]} | {d: coord(case, d) for d in b['dims']})))
  return out


def make_weighting_binning(case):
  ws = [weighting.GridAreaWeighting() if isinstance(t, str) else TableWeighting(t) for t in weight_tables(case)]
  bs = [TableBinning(n, t) for n, t in bin_tables(case)]
  return ws, bs


def area_reference(lat):
  """Normalised spherical cell areas, from the definition."""
  lat = np.asarray(lat, float)
  order = np.argsort(lat)
  x = lat[order]
  mid = (x[1:] + x[:-1]) / 2
  lo = max(-90.0, x[0] - (x[1] - x[0]) / 2)
  hi = min(90.0, x[-1] + (x[-1] - x[-2]) / 2)
  b = np.sin(np.deg2rad(np.concatenate([[lo], mid, [hi]])))
  a = np.diff(b)
  w = np.empty_like(a)
  w[order] = a
  return w / w.mean()


def reference(case, da, masked=False, skipna=False):
  r = reference3(case, da, masked, skipna)
  return r and r[:2]


def reference3(case, da, masked=False, skipna=False):
  """Brute-force (sum_weighted, sum_weights, ambiguous), or None if undefined.

  ambiguous marks sums that a missing value enters with coefficient zero only
  (outside the bin, or zero weight): NaN is documented there, but whether NaN*0
  is evaluated depends on the BLAS, so both NaN and the plain sum are accepted.

  Loops over every element of the statistic and every bin; no einsum, no
  broadcasting tricks.
  """
  red = list(case['reduce'])
  if not set(red) <= set(da.dims):
    return None
  bts = bin_tables(case)
  for _, t in bts:
    if not set(t.dims[1:]) <= set(da.dims):
      return None
  wts = []
  for t in weight_tables(case):
    if isinstance(t, str):
      if 'latitude' in da.dims:
        wts.append((('latitude',), area_reference(case['lat'])))
    else:
      wts.append((t.dims, t.values))
  wdims = []
  for d, _ in wts:
    for x in d:
      if x not in da.dims and x not in wdims:
        wdims.append(x)
  # Weights over dimensions the statistic lacks broadcast it along them.
  keep = [d for d in da.dims if d not in red] + [d for d in wdims]
  alld = list(da.dims) + wdims
  sizes = case['sizes']
  vals = np.asarray(da.values, float)
  use = np.ones(da.shape, bool)
  if masked and 'mask' in da.coords:
    m = da.mask
    use = np.asarray(m.broadcast_like(da).transpose(*da.dims).values, bool)
    if skipna:
      use = use & ~np.isnan(vals)
  elif skipna:
    use = ~np.isnan(vals)
  bdims = [n for n, _ in bts]
  bshape = [t.shape[0] for _, t in bts]
  shape = bshape + [sizes[d] for d in keep]
  S = np.zeros(shape)
  A = np.zeros(shape, bool)
  W = np.zeros(shape)
  for idx in itertools.product(*[range(sizes[d]) for d in alld]):
    pos = dict(zip(alld, idx))
    di = tuple(pos[d] for d in da.dims)
    w = 1.0
    for d, t in wts:
      w = w * t[tuple(pos[x] for x in d)]
    v, u = (vals[di], 1.0) if use[di] else (0.0, 0.0)
    ki = tuple(pos[d] for d in keep)
    for bi in itertools.product(*[range(n) for n in bshape]):
      ind = 1.0
      for (n, t), b in zip(bts, bi):
        ind = ind * float(t.values[(b,) + tuple(pos[d] for d in t.dims[1:])])
      if w * ind != 0:
        S[bi + ki] += v * w * ind
      elif np.isnan(v):
        A[bi + ki] = True
      W[bi + ki] += u * w * ind
  coords = {n: t[n].values for n, t in bts} | {d: coord(case, d) for d in keep}
  mk = lambda x: xr.DataArray(x, dims=bdims + keep, coords=coords)
  return mk(S), mk(W), mk(A)
