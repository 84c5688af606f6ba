"""Prediction/target pair generator shared by the metric checks."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen

DIMS = ['init_time', 'lead_time', 'latitude', 'longitude', 'level']
MAXN = {'init_time': 4, 'lead_time': 3, 'latitude': 4, 'longitude': 4, 'level': 3, 'number': 6}


def label(dim, n):
  return {'init_time': lambda: gen.times(n, step_h=24), 'lead_time': lambda: gen.h2td(np.arange(n) * 6),
          'latitude': lambda: np.linspace(-60, 60, n) if n > 1 else np.array([10.0]),
          'longitude': lambda: np.arange(n) * 30.0, 'level': lambda: np.arange(500, 500 + 100 * n, 100),
          'number': lambda: np.arange(n)}[dim]()


@st.composite
def pairs(draw, kinds=('normal', 'int', 'unif'), nan=(0.0, 0.0, 0.2), max_vars=3, labels=True,
          min_dims=1, ensemble=False, target_kinds=None, max_members=6, dims=None, required=(), sizes_min=1,
          dtype=('float64', 'float64', 'float32')):
  dims = DIMS if dims is None else dims
  chosen = draw(st.lists(st.sampled_from(dims), unique=True, min_size=min_dims, max_size=4))
  for r in required:
    if r not in chosen:
      chosen.insert(draw(st.integers(0, len(chosen))), r)
  sizes = {d: draw(st.integers(sizes_min, MAXN[d])) for d in chosen}
  nv = draw(st.integers(1, max_vars))
  vs = []
  for i in range(nv):
    vd = [d for d in chosen if d in required or draw(st.integers(0, 5)) > 0] or chosen[:1]
    vs.append(dict(name=f'v{i}', dims=vd, p=draw(gen.array_spec(kinds, nan=nan, dtype=dtype)),
                   t=draw(gen.array_spec(target_kinds or kinds, nan=nan, dtype=dtype)),
                   tdims=draw(st.permutations(vd))))
  c = dict(sizes=sizes, vars=vs, tlabels={}, extra=draw(st.sampled_from(['', '', 'p', 't', 'pt'])))
  if labels and draw(st.integers(0, 2)) == 0:
    # Targets hold permuted and/or partially overlapping labels along some dims.
    for d in chosen:
      if draw(st.booleans()):
        n = sizes[d] + draw(st.integers(0, 2))
        lab = list(draw(st.permutations(range(n))))
        drop = draw(st.integers(0, min(1, len(lab) - 1)))
        c['tlabels'][d] = lab[drop:]
  if ensemble:
    c['members'] = draw(st.integers(1, max_members))
    c['ens_pos'] = draw(st.integers(0, 4))
    c['ens_dim'] = draw(st.sampled_from(['number', 'number', 'ens']))
  return c


def tlab(c, d):
  return c['tlabels'].get(d, list(range(c['sizes'][d])))


def labels_of(d, idx):
  """Label values for label indices (any range)."""
  return label(d, max(list(idx) + [0]) + 1)[list(idx)] if len(idx) else label(d, 1)[:0]


def full_labels(c, d):
  n = max([c['sizes'][d] - 1] + tlab(c, d)) + 1
  return label(d, n) if d not in ('latitude',) else np.linspace(-60, 60, 8)[:n]


def make(c, ens_on_targets=False):
  """-> (predictions, targets) as dicts of DataArrays (plus unmatched extras)."""
  p, t = {}, {}
  for i, v in enumerate(c['vars']):
    pd = list(v['dims'])
    shape = [c['sizes'][d] for d in pd]
    coords = {d: full_labels(c, d)[:c['sizes'][d]] for d in pd}
    if 'members' in c:
      k = min(c['ens_pos'], len(pd))
      pd2 = pd[:k] + [c['ens_dim']] + pd[k:]
      shape2 = shape[:k] + [c['members']] + shape[k:]
      pc = dict(coords, **{c['ens_dim']: np.arange(c['members'])})
    else:
      pd2, shape2, pc = pd, shape, coords
    p[v['name']] = xr.DataArray(gen.build(shape2, v['p'], i), dims=pd2, coords=pc, name=v['name'])
    td = list(v['tdims'])
    idx = {d: tlab(c, d) for d in td}
    t[v['name']] = xr.DataArray(gen.build([len(idx[d]) for d in td], v['t'], 100 + i), dims=td,
                                coords={d: full_labels(c, d)[idx[d]] for d in td}, name=v['name'])
  if 'p' in c['extra']:
    p['only_p'] = p['v0'].copy().rename('only_p')
  if 't' in c['extra']:
    t['only_t'] = t['v0'].copy().rename('only_t')
  return p, t


def common(c, v):
  """Label indices shared by predictions and targets per dim of variable v."""
  return {d: [j for j in range(c['sizes'][d]) if j in tlab(c, d)] for d in v['dims']}


def aligned(c, v, pda, tda):
  """Numpy arrays (p, t) on common labels in v['dims'] order (ensemble axis last in p), + coords.

  Independent of xarray's own alignment: indices are looked up in the case.
  """
  cm = common(c, v)
  P = pda.transpose(*v['dims'], *([c['ens_dim']] if 'members' in c else [])).values
  T = tda.transpose(*v['dims']).values
  for ax, d in enumerate(v['dims']):
    P = np.take(P, cm[d], axis=ax)
    T = np.take(T, [tlab(c, d).index(j) for j in cm[d]], axis=ax)
  coords = {d: full_labels(c, d)[cm[d]] for d in v['dims']}
  return P.astype(float), T.astype(float), coords


def ref(c, v, values, extra_dims=(), extra_coords=None):
  """DataArray with expected values on v's dims (+extra trailing dims)."""
  cm = common(c, v)
  coords = {d: full_labels(c, d)[cm[d]] for d in v['dims']}
  coords.update(extra_coords or {})
  return xr.DataArray(values, dims=list(v['dims']) + list(extra_dims), coords=coords)


def tol(v, f32=1e-4):
  return dict(rtol=f32, atol=f32 * 10) if 'float32' in (v['p']['dtype'], v['t']['dtype']) else dict(rtol=1e-9, atol=1e-9)


def npmean(x, axes):
  return x.mean(axis=tuple(axes)) if axes else x
