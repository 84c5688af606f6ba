"""P18: input transforms compose exactly as documented."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical as cat, deterministic as det, wrappers as w

RULE = ('chains of 1-4 transforms (all 11 kinds; scalar, list, per-place, per-variable and per-time thresholds) on '
        'predictions, targets or both, dict and Dataset inputs, values exactly on thresholds, missing values; non-trivial = '
        'at least two transforms, or a value exactly on a threshold')
ASSUMPTIONS = ['thresholds themselves are not missing', 'transforms that need a dimension are given inputs that have it']
DIMS = ['number', 'init_time', 'x', 'y']


# ---- Reference transforms: plain numpy on (array, dims, coords) triples.

class A:
  """Array with named axes and labels (no xarray semantics)."""

  def __init__(self, v, dims, coords):
    self.v, self.dims, self.coords = v, list(dims), dict(coords)

  def bcast(self, table, tdims, newdim, newlab):
    """table over tdims (subset of dims + newdim last) -> shaped to dims + [newdim]."""
    shp = [table.shape[tdims.index(d)] if d in tdims else 1 for d in self.dims] + [table.shape[tdims.index(newdim)]]
    order = [tdims.index(d) for d in self.dims if d in tdims] + [tdims.index(newdim)]
    return np.transpose(table, order).reshape(shp)


def thr_table(a, tr, var):
  """Threshold table (values, dims) for a transform spec and variable."""
  f = tr['form']
  e = np.array(tr['edges'], float)
  if f in ('scalar', 'list', 'tuple', 'nparray'):
    return e, [tr['dim']], e
  q = np.arange(len(e)) * 10.0
  if f == 'array1':
    return e, [tr['dim']], q
  if f == 'dataset1':
    return e + vshift(var), [tr['dim']], q
  n = len(a.coords['x']) if 'x' in a.dims else 1
  tab = e[None, :] + np.array([0.0, 1.0, -1.0, 0.5])[np.arange(n)][:, None]
  if f == 'dataset2':
    tab = tab + vshift(var)
  return tab, ['x', tr['dim']], q


def vshift(var):
  return float(int(var[1:])) * 1.0


def lib_thresholds(tr, xs, variables):
  f, e = tr['form'], [float(x) for x in tr['edges']]
  if f == 'scalar':
    return e[0]
  if f == 'list':
    return e
  if f == 'tuple':
    return tuple(e)
  if f == 'nparray':
    return np.array(e)
  q = np.arange(len(e)) * 10.0
  one = xr.DataArray(np.array(e), dims=[tr['dim']], coords={tr['dim']: q})
  if f == 'array1':
    return one
  if f == 'dataset1':
    return xr.Dataset({v: one + vshift(v) for v in variables})
  tab = np.array(e)[None, :] + np.array([0.0, 1.0, -1.0, 0.5])[np.arange(len(xs))][:, None]
  two = xr.DataArray(tab, dims=['x', tr['dim']], coords={'x': xs, tr['dim']: q})
  if f == 'array2':
    return two.transpose(tr['dim'], 'x')
  return xr.Dataset({v: two + vshift(v) for v in variables})


def ref(a, tr, var):
  k = tr['k']
  ax = lambda d: a.dims.index(d)
  nan = np.isnan(a.v)
  if k == 'mean':
    if tr['missing_ok'] and 'number' not in a.dims:
      return a
    i = ax('number')
    with np.errstate(all='ignore'):
      if tr['skipna']:
        n = (~nan).sum(axis=i)
        v = np.where(nan, 0, a.v).sum(axis=i) / np.where(n == 0, np.nan, n)
      else:
        v = a.v.sum(axis=i) / a.v.shape[i]
    return A(v, [d for d in a.dims if d != 'number'], {d: c for d, c in a.coords.items() if d != 'number'})
  if k == 'weibull':
    i = ax('number')
    return A(a.v.sum(axis=i) / (a.v.shape[i] + 1), [d for d in a.dims if d != 'number'], {d: c for d, c in a.coords.items() if d != 'number'})
  if k in ('binary', 'cdf', 'bins'):
    tab, td, lab = thr_table(a, tr, var)
    T = a.bcast(tab, td, tr['dim'], lab)
    x = a.v[..., None]
    with np.errstate(invalid='ignore'):
      if k == 'binary':
        v = (x > T) * 1.0
      elif k == 'cdf' and not tr['right']:
        v = (x < T) * 1.0
      elif k == 'cdf':
        v = (x <= T) * 1.0
      else:
        v = ((x > T[..., :-1]) & (x <= T[..., 1:])) * 1.0
    v = np.where(np.isnan(x), np.nan, v)
    coords = dict(a.coords)
    coords[tr['dim']] = lab if k != 'bins' else (lab[:-1], lab[1:])
    return A(v, a.dims + [tr['dim']], coords)
  if k == 'relu':
    return A(np.where(nan, np.nan, np.where(nan, 0, a.v).clip(0, None)), a.dims, a.coords)
  if k == 'inline':
    return A(a.v * tr['m'] + 1.0, a.dims, a.coords)
  if k == 'shift':
    tab, td, lab = thr_table(a, tr, var)
    T = a.bcast(tab, td, tr['dim'], lab)
    c = dict(a.coords)
    c[tr['dim']] = lab
    return A(a.v[..., None] + T, a.dims + [tr['dim']], c)
  if k == 'isel':
    i = ax('y')
    c = dict(a.coords)
    if isinstance(tr['idx'], int):
      d = [q for q in a.dims if q != 'y']
      c.pop('y')
      return A(np.take(a.v, tr['idx'], axis=i), d, c)
    c['y'] = np.array(c['y'])[tr['idx']]
    return A(np.take(a.v, tr['idx'], axis=i), a.dims, c)
  if k == 'sel':
    i = ax('y')
    pos = [list(a.coords['y']).index(l) for l in tr['labels']]
    c = dict(a.coords, y=np.array(tr['labels']))
    out = A(np.take(a.v, pos, axis=i), a.dims, c)
    # Positions, if given as well, are positions within the selected labels.
    return ref(out, dict(k='isel', idx=tr['then']), var) if tr.get('then') else out
  if k == 'rename':
    return A(a.v, ['z' if d == 'y' else d for d in a.dims], {('z' if d == 'y' else d): c for d, c in a.coords.items()})
  if k == 'stack':
    ds = tr['dims']
    rest = [d for d in a.dims if d not in ds]
    v = np.transpose(a.v, [ax(d) for d in rest] + [ax(d) for d in ds])
    v = v.reshape([a.v.shape[ax(d)] for d in rest] + [-1])
    return A(v, rest + [tr['new']], {d: c for d, c in a.coords.items() if d in rest})
  raise AssertionError(k)


def lib(tr, xs, variables, pos):
  k, wh = tr['k'], tr['which']
  if k == 'mean':
    return w.EnsembleMean(wh, skipna=tr['skipna'], skip_if_ensemble_dim_missing=tr['missing_ok'])
  if k == 'weibull':
    return w.WeibullEnsembleToProbabilistic('predictions')
  if k == 'relu':
    return w.ReLU(wh)
  if k == 'inline':
    m = tr['m']
    return w.Inline(wh, lambda da: da * m + 1.0, f'inline{m}_{pos}')
  if k == 'isel':
    return w.Select(wh, isel={'y': tr['idx']})
  if k == 'sel':
    return w.Select(wh, sel={'y': tr['labels']}, isel={'y': tr['then']} if tr.get('then') else None)
  if k == 'rename':
    return w.Rename(wh, {'y': 'z'})
  if k == 'stack':
    return w.StackToNewDimension(wh, tr['dims'], tr['new'])
  th = lib_thresholds(tr, xs, variables)
  sfx = f'suffix{pos}'
  if k == 'binary':
    return w.ContinuousToBinary(wh, th, tr['dim'], sfx)
  if k == 'bins':
    return w.ContinuousToBins(wh, th, tr['dim'], sfx)
  if k == 'cdf':
    return w.ContinuousToCDF(wh, th, tr['dim'], sfx, right_inclusive=tr['right'])
  if k == 'shift':
    return w.ShiftAlongNewDim(wh, th, tr['dim'], sfx)
  raise AssertionError(k)


@st.composite
def chains(draw):
  sizes = dict(number=draw(st.integers(1, 4)), init_time=draw(st.integers(1, 2)), x=draw(st.integers(1, 3)), y=draw(st.integers(1, 3)))
  state = {'predictions': ['number', 'init_time', 'x', 'y'], 'targets': ['init_time', 'x', 'y']}
  binned = False
  n = draw(st.sampled_from([1, 2, 2, 3, 4]))
  trs = []
  for pos in range(n):
    kinds = ['binary', 'cdf', 'bins', 'relu', 'inline', 'shift', 'mean']
    both = {d for d in state['predictions']} & set(state['targets'])
    if 'number' in state['predictions']:
      kinds += ['mean', 'mean', 'weibull']
    if 'y' in both:
      kinds += ['isel', 'sel', 'rename']
      if 'x' in both:
        kinds += ['stack']
    k = draw(st.sampled_from(kinds))
    which = draw(st.sampled_from(['both', 'both', 'predictions', 'targets']))
    tr = dict(k=k, which=which)
    if k == 'mean':
      if 'number' not in state['predictions']:
        k = tr['k'] = 'relu'
      else:
        tr.update(skipna=draw(st.booleans()), missing_ok=which != 'predictions' or draw(st.booleans()))
        if which != 'targets':
          state['predictions'] = [d for d in state['predictions'] if d != 'number']
    if k == 'weibull':
      tr['which'] = 'predictions'
      state['predictions'] = [d for d in state['predictions'] if d != 'number']
    if k in ('binary', 'cdf', 'bins', 'shift'):
      forms = ['list', 'dataset1', 'dataset1']
      if k != 'shift':
        forms += ['array1', 'tuple', 'nparray'] if k != 'shift' else []
        if 'x' in both:
          forms += ['array2', 'dataset2']
      elif 'x' in both:
        forms += ['dataset2']
      if k in ('binary', 'shift'):
        forms += ['scalar']
      tr['form'] = draw(st.sampled_from(forms))
      lo = 2 if k == 'bins' else 1
      e = sorted(draw(st.lists(st.sampled_from([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0]), min_size=lo, max_size=3, unique=True)))
      if k == 'bins' and draw(st.booleans()) and tr['form'] in ('list', 'tuple', 'nparray'):
        e = [-np.inf] + e + [np.inf]
      if tr['form'] == 'scalar':
        e = e[:1]
      tr.update(edges=[float(x) for x in e], dim=f'thr{pos}', right=draw(st.booleans()))
      for s in state:
        if which in (s, 'both'):
          state[s].append(f'thr{pos}')
    if k == 'inline':
      tr['m'] = draw(st.sampled_from([-1.0, 2.0]))
    if k == 'isel':
      tr['idx'] = draw(st.one_of(st.integers(0, sizes['y'] - 1), st.lists(st.integers(0, sizes['y'] - 1), min_size=1, max_size=3, unique=True)))
      tr['which'] = 'both'
      if isinstance(tr['idx'], int):
        for s in state:
          state[s].remove('y')
      else:
        sizes['y'] = sizes['y'] if False else len(tr['idx'])
        trs.append(tr)
        # Labels after an index selection are no longer 0..n-1: end 'sel'/'isel' use.
        for s in state:
          state[s] = ['y_' if d == 'y' else d for d in state[s]]
        continue
    if k == 'sel':
      tr['labels'] = [10 * i for i in draw(st.lists(st.integers(0, sizes['y'] - 1), min_size=1, max_size=3, unique=True))]
      tr['which'] = 'both'
      if draw(st.booleans()):
        tr['then'] = draw(st.lists(st.integers(0, len(tr['labels']) - 1), min_size=1, max_size=3, unique=True))
      trs.append(tr)
      for s in state:
        state[s] = ['y_' if d == 'y' else d for d in state[s]]
      continue
    if k == 'rename':
      tr['which'] = 'both'
      for s in state:
        state[s] = ['z' if d == 'y' else d for d in state[s]]
    if k == 'stack':
      tr['which'] = 'both'
      tr['dims'] = draw(st.sampled_from([['x', 'y'], ['y', 'x']]))
      tr['new'] = draw(st.sampled_from(['x', 'point']))
      for s in state:
        state[s] = [d for d in state[s] if d not in ('x', 'y')] + ['stacked']
    trs.append(tr)
  size0 = dict(number=sizes['number'], init_time=sizes['init_time'], x=sizes['x'])
  return dict(trs=trs, sizes=size0, ny=3, nv=draw(st.integers(1, 2)), p=draw(gen.array_spec(('int', 'int', 'normal'), nan=(0.0, 0.2))),
              t=draw(gen.array_spec(('int', 'int', 'normal'), nan=(0.0, 0.2))), ds=draw(st.booleans()),
              perm=draw(st.permutations(range(4))), suffix=draw(st.booleans()))


def inputs(case):
  sz = dict(case['sizes'], y=case['ny'])
  coords = {'init_time': gen.times(sz['init_time']), 'x': np.arange(sz['x']) * 2.0, 'y': np.arange(sz['y']) * 10}
  variables = [f'v{i}' for i in range(case['nv'])]
  p, t, P, T = {}, {}, {}, {}
  for i, v in enumerate(variables):
    P[v] = A(gen.build([sz[d] for d in DIMS], case['p'], i), DIMS, coords)
    T[v] = A(gen.build([sz[d] for d in DIMS[1:]], case['t'], 50 + i), DIMS[1:], coords)
    p[v] = xr.DataArray(P[v].v, dims=DIMS, coords=coords, name=v).transpose(*[DIMS[j] for j in case['perm']])
    t[v] = xr.DataArray(T[v].v, dims=DIMS[1:], coords=coords, name=v)
  if case['ds']:
    p, t = xr.Dataset(p), xr.Dataset(t)
  return p, t, P, T, variables, coords


def isel_fix(case):
  """Index selections refer to the three original rows."""
  return case


def to_da(a):
  c = {d: x for d, x in a.coords.items() if d in a.dims and not isinstance(x, tuple)}
  return xr.DataArray(a.v, dims=a.dims, coords=c)


def check_coords(got, a, what):
  for d, lab in a.coords.items():
    if d not in got.dims:
      continue
    if isinstance(lab, tuple):
      same_np(got[f'{d}_left'].values, lab[0], f'{what}: left edges')
      same_np(got[f'{d}_right'].values, lab[1], f'{what}: right edges')
      names = [str(x) for x in got[d].values]
      check(len(set(names)) == len(names) or len(set(np.round(lab[0], 2))) < len(names), f'{what}: bin names {names}')
    elif d in got.coords:
      same_np(got[d].values, np.asarray(lab), f'{what}: labels of {d}')
    else:
      fail(f'{what}: no labels for {d}')


def strip(got, a):
  """Drops bin-name labels (strings) so that values can be compared by position."""
  return got.drop_vars([d for d, l in a.coords.items() if isinstance(l, tuple) and d in got.coords])


@test('P18', chains(), quick=1500)
def chain_equals_by_hand(case, ctx):
  p, t, P, T, variables, coords = inputs(case)
  trs = case['trs']
  kinds = [x['k'] for x in trs]
  exact = any(np.isin(P[v].v, x.get('edges', [])).any() for v in variables for x in trs)
  ctx.nt(len(trs) >= 2 or exact)
  ctx.label(f'n={len(trs)}', f"ds={case['ds']}", *[f'k={k}' for k in kinds], *[f"form={x['form']}" for x in trs if 'form' in x])
  transforms = [lib(x, coords['x'], variables, i) for i, x in enumerate(trs)]
  hp, ht = {}, {}
  for v in variables:
    a, b = P[v], T[v]
    for tr in trs:
      if tr['which'] in ('predictions', 'both'):
        a = ref(a, tr, v)
      if tr['which'] in ('targets', 'both'):
        b = ref(b, tr, v)
    hp[v], ht[v] = a, b
  for name, m, f in [('prediction', det.PredictionPassthrough(), None), ('target', det.TargetPassthrough(), None), ('error', det.Error(), None)]:
    wm = w.WrappedMetric(m, transforms, 'mysuffix' if case['suffix'] else None)
    stat = wm.statistics['self']
    if case['suffix']:
      check(stat.unique_name == f'{m.unique_name}_mysuffix', 'unique name with the requested suffix')
    out = stat.compute(p, t)
    check(set(out) == set(variables), f'{name}: variables {set(out)}')
    for v in variables:
      a, b = to_da(hp[v]), to_da(ht[v])
      z = a + 0 * b if name == 'prediction' else (b + 0 * a if name == 'target' else a - b)
      if name == 'prediction':
        z = a.broadcast_like(b)
      elif name == 'target':
        z = b.broadcast_like(a)
      both = A(None, list(z.dims), {**hp[v].coords, **ht[v].coords})
      got = out[v]
      check_coords(got, both, f'{kinds} {name}[{v}]')
      g, e = strip(got, both), z
      same_da(g, e, f'{kinds} {name}[{v}]', rtol=1e-5, atol=1e-5, coords=None)


@st.composite
def time_cases(draw):
  return dict(ni=draw(st.integers(1, 3)), nl=draw(st.integers(1, 3)), chunk=draw(st.sampled_from(['init_lead', 'valid', 'none'])),
              thr=draw(st.sampled_from(['valid_time', 'init_lead', 'doy_lead', 'doy', 'none'])),
              spec=draw(gen.array_spec(('int',), nan=(0.0, 0.2))), tseed=draw(gen.seeds), nq=draw(st.integers(2, 3)),
              shuffle=draw(st.booleans()), start=draw(st.sampled_from(['2020-02-27', '2019-12-30', '2020-12-30'])),
              kind=draw(st.sampled_from(['cdf', 'cdf_left', 'bins'])), ds=draw(st.booleans()), step=draw(st.sampled_from([12, 24, 36])))


@test('P18', time_cases(), quick=700)
def time_dependent_edges(case, ctx):
  """Bin edges that vary with time are taken at the sample's own time."""
  ini = gen.h2dt(np.arange(case['ni']) * case['step'], case['start'])
  led = gen.h2td(np.arange(case['nl']) * 18)
  nq, r = case['nq'], gen.rng(case['tseed'])
  if case['chunk'] == 'init_lead':
    da = xr.DataArray(gen.build((case['ni'], case['nl'], 2), case['spec']), dims=['init_time', 'lead_time', 'x'],
                      coords={'init_time': ini, 'lead_time': led, 'x': [0, 1]}, name='v')
    samples = [((i, j), ini[i] + led[j], ini[i], j) for i in range(case['ni']) for j in range(case['nl'])]
  elif case['chunk'] == 'valid':
    da = xr.DataArray(gen.build((case['ni'], 2), case['spec']), dims=['valid_time', 'x'], coords={'valid_time': ini, 'x': [0, 1]}, name='v')
    samples = [((i,), ini[i], None, None) for i in range(case['ni'])]
  else:
    da = xr.DataArray(gen.build((2,), case['spec']), dims=['x'], coords={'x': [0, 1]}, name='v')
    samples = [((), None, None, None)]
  thr = case['thr']
  if thr == 'doy' and case['chunk'] == 'init_lead' or thr in ('init_lead', 'doy_lead') and case['chunk'] == 'valid':
    ctx.label('unsupported')
    return
  if thr != 'none' and case['chunk'] == 'none':
    return
  edges = lambda shape: np.sort(r.integers(-3, 3, size=shape + (nq,)) * 1.0, axis=-1) + np.arange(nq)
  q = np.arange(nq) * 0.25
  doy = lambda d: d.astype('datetime64[s]').item().timetuple().tm_yday
  sh = lambda n: r.permutation(n) if case['shuffle'] else np.arange(n)
  if thr == 'none':
    tab = edges(())
    bt = xr.DataArray(tab, dims=['q'], coords={'q': q})
    look = lambda s: tab
  elif thr == 'valid_time':
    vts = np.array(sorted({s[1] for s in samples} | {samples[0][1] + np.timedelta64(6, 'h')}))[:]
    tab = edges((len(vts),))
    bt = xr.DataArray(tab, dims=['valid_time', 'q'], coords={'valid_time': vts, 'q': q}).isel(valid_time=sh(len(vts)))
    look = lambda s: tab[list(vts).index(s[1])]
  elif thr == 'init_lead':
    tab = edges((case['ni'], case['nl']))
    bt = xr.DataArray(tab, dims=['init_time', 'lead_time', 'q'], coords={'init_time': ini, 'lead_time': led, 'q': q}).isel(
        init_time=sh(case['ni']), lead_time=sh(case['nl']))
    look = lambda s: tab[s[0]]
  elif thr == 'doy_lead':
    ds = np.arange(1, 367)
    tab = edges((366, case['nl']))
    bt = xr.DataArray(tab, dims=['dayofyear', 'lead_time', 'q'], coords={'dayofyear': ds, 'lead_time': led, 'q': q}).isel(dayofyear=sh(366))
    look = lambda s: tab[doy(s[2]) - 1, s[3]]
  else:
    tab = edges((366,))
    bt = xr.DataArray(tab, dims=['dayofyear', 'q'], coords={'dayofyear': np.arange(1, 367), 'q': q}).isel(dayofyear=sh(366))
    look = lambda s: tab[doy(s[1]) - 1]
  th = xr.Dataset({'v': bt, 'other': bt + 1}) if case['ds'] else bt
  if case['kind'] == 'bins':
    tr = w.ContinuousToBins('both', th, 'q', 'sfx', enforce_monotonicity=True)
  else:
    tr = w.ContinuousToCDF('both', th, 'q', 'sfx', right_inclusive=case['kind'] == 'cdf')
  ctx.nt(len({tuple(np.atleast_1d(look(s))) for s in samples}) > 1)
  ctx.label('chunk=' + case['chunk'], 'thr=' + thr, 'kind=' + case['kind'])
  got = tr.transform_fn(da)
  n = nq - 1 if case['kind'] == 'bins' else nq
  e = np.zeros(da.shape + (n,))
  for s in samples:
    ed = np.asarray(look(s))
    for x in range(2):
      v = da.values[s[0] + (x,)]
      if np.isnan(v):
        e[s[0] + (x,)] = np.nan
      elif case['kind'] == 'cdf':
        e[s[0] + (x,)] = v <= ed
      elif case['kind'] == 'cdf_left':
        e[s[0] + (x,)] = v < ed
      else:
        e[s[0] + (x,)] = (v > ed[:-1]) & (v <= ed[1:])
  g = got.transpose(*da.dims, 'q')
  same_np(g.values, e, f"{case['kind']} with edges by {thr}")
  if case['kind'] == 'bins':
    same_np(g['q_left'].values, q[:-1], 'left edges')
    same_np(g['q_right'].values, q[1:], 'right edges')
  else:
    same_np(g['q'].values, q, 'threshold labels')


@st.composite
def sub_cases(draw):
  nv = draw(st.integers(1, 4))
  return dict(nv=nv, sub=draw(st.lists(st.integers(0, nv), unique=True, max_size=3)), ds=draw(st.booleans()),
              p=draw(gen.array_spec(('int',))), t=draw(gen.array_spec(('int',))), nested=draw(st.booleans()))


@test('P18', sub_cases(), quick=300)
def subselected_variables(case, ctx):
  names = [f'v{i}' for i in range(case['nv'])]
  sub = [f'v{i}' for i in case['sub']]  # v{nv} does not exist
  mk = lambda s, o: {n: xr.DataArray(gen.build((3, 2), s, o + i), dims=['a', 'b'], name=n) for i, n in enumerate(names)}
  p, t = mk(case['p'], 0), mk(case['t'], 50)
  if case['ds']:
    p, t = xr.Dataset(p), xr.Dataset(t)
  ctx.nt(0 < len(set(sub) & set(names)) < len(names))
  m = w.SubselectVariables(det.RMSE(), sub)
  if case['nested']:
    m = w.WrappedMetric(m, [w.Inline('predictions', lambda d: d * 1, 'one')])
  stats = base.compute_unique_statistics_for_all_metrics({'m': m, 'full': det.RMSE()}, p, t)
  agg = aggregation.Aggregator(reduce_dims=['a'])
  out = agg.aggregate_statistics(stats)
  means = {s: dict(x) for s, x in out.mean_statistics().items()}
  sel = base.compute_metric_from_statistics(m, means) if sub or True else {}
  full = base.compute_metric_from_statistics(det.RMSE(), means)
  check(set(sel) == set(sub) & set(names), lambda: f'selected variables {set(sel)} of {sub}')
  check(set(full) == set(names), 'unselected metric lost variables')
  for n in sel:
    e = np.sqrt(((p[n].values - t[n].values) ** 2).mean(axis=0))
    same_np(sel[n].values, e, f'subselected {n}')


@test('P18', sub_cases(), quick=200)
def invalid_configurations_rejected(case, ctx):
  """Non-increasing bin edges, unknown inputs and unnamed field thresholds are errors."""
  ctx.nt()
  x = xr.DataArray(gen.build((3, 2), case['p']), dims=['a', 'b'], name='v0')
  e = [0.0, 1.0, 1.0] if case['nested'] else [1.0, 0.0]
  expect_raises(lambda: w.ContinuousToBins('both', e, 'q').transform_fn(x), ValueError, 'non-increasing bin edges')
  expect_raises(lambda: w.ContinuousToCDF('both', e, 'q').transform_fn(x), ValueError, 'non-increasing thresholds')
  expect_raises(lambda: w.ReLU('prediction'), ValueError, 'unknown input name')
  f = xr.DataArray([0.0, 1.0], dims='q', coords={'q': [0, 1]})
  for c in (w.ContinuousToBins, w.ContinuousToCDF, w.ContinuousToBinary):
    expect_raises(lambda: c('both', f, 'q'), ValueError, f'{c.__name__} with field thresholds but no suffix')
  expect_raises(lambda: w.WeibullEnsembleToProbabilistic('targets'), AssertionError, 'plotting position of targets')
