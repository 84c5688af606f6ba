"""P30: mapping over nested structures is leaf-wise and loses nothing."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_da, same_np
from wbxv.core import test
from weatherbenchX import xarray_tree

RULE = ('random nestings of dicts, lists, tuples, data sets and leaves with 1-3 parallel structures and '
        'functions that change values, dims or coordinates, return None or other types; non-trivial = a '
        'data set or at least two leaves')
ASSUMPTIONS = ['parallel structures have the same shape; a result array has no coordinate named like its variable']

FUNCS = ['scale', 'reduce', 'subset', 'conflict_coord', 'conflict_index', 'none', 'all_none', 'number', 'transpose',
         'newdim', 'dropcoord', 'numpy', 'extra_coord']


@st.composite
def nodes(draw, depth=2):
  kind = draw(st.sampled_from(['ds', 'dict', 'list', 'tuple', 'leaf', 'scalar'] if depth else ['ds', 'leaf', 'scalar']))
  if kind in ('leaf', 'scalar'):
    return dict(t=kind, v=draw(leaf_spec()))
  if kind == 'ds':
    n = draw(st.sampled_from([2, 3, 1, 0]))
    # shared sizes so that the inputs form a data set
    sizes = {d: draw(st.integers(1, 3)) for d in 'xyz'}
    vs = []
    for i in range(n):
      s = draw(leaf_spec())
      s['sizes'] = sizes
      vs.append(s)
    names = draw(st.permutations(['a', 'b', 'c']))[:n]
    return dict(t='ds', names=names, vars=vs, scalar=draw(st.booleans()))
  n = draw(st.sampled_from([2, 1, 3, 0]))
  kids = [draw(nodes(depth - 1)) for _ in range(n)]
  if kind == 'dict':
    return dict(t='dict', keys=draw(st.permutations(['k0', 'k1', 'k2', 'k3']))[:n], kids=kids)
  return dict(t=kind, kids=kids)


def leaf_spec():
  return st.fixed_dictionaries(dict(
      dims=st.sampled_from([['x'], ['x', 'y'], ['y', 'x'], [], ['z', 'y', 'x'], ['y']]),
      sizes=st.fixed_dictionaries({d: st.integers(1, 3) for d in 'xyz'}),
      seed=gen.seeds, coords=st.booleans(), dtype=st.sampled_from(['float64', 'int64', 'float32'])))


@st.composite
def cases(draw):
  return dict(tree=draw(nodes()), nargs=draw(st.sampled_from([1, 2, 3])), func=draw(st.sampled_from(FUNCS)),
              shuffle=draw(st.booleans()))


def leaf(s, salt, name=None, indexed=None):
  shape = [s['sizes'][d] for d in s['dims']]
  x = gen.build(shape, dict(seed=s['seed'], kind='int', dtype=s['dtype']), salt)
  c = {}
  use = s['coords'] if indexed is None else indexed
  if use:
    for d in s['dims']:
      c[d] = np.arange(s['sizes'][d]) * 2
    if 'x' in s['dims']:
      c['lab'] = ('x', np.arange(s['sizes']['x']) + 10)
  return xr.DataArray(x, dims=s['dims'], coords=c, name=name, attrs={'u': 1})


def build(node, salt, order=0):
  t = node['t']
  if t == 'scalar':
    return float(node['v']['seed']) + salt
  if t == 'leaf':
    return leaf(node['v'], salt)
  if t == 'ds':
    ds = xr.Dataset({n: leaf(s, salt, indexed=node['vars'][0]['coords']) for n, s in zip(node['names'], node['vars'])},
                    attrs={'title': 't'})
    if node['scalar']:
      ds = ds.assign_coords(level=500)
    return ds
  if t == 'dict':
    items = [(k, build(n, salt, order)) for k, n in zip(node['keys'], node['kids'])]
    return dict(items[::-1] if order and salt else items)
  return {'list': list, 'tuple': tuple}[t](build(n, salt, order) for n in node['kids'])


def flatten(x, path=()):
  if isinstance(x, xr.Dataset):
    for k in x:
      yield path + (k,), x[k]
  elif isinstance(x, dict):
    for k in x:
      yield from flatten(x[k], path + (k,))
  elif isinstance(x, (list, tuple)):
    for i, v in enumerate(x):
      yield from flatten(v, path + (i,))
  else:
    yield path, x


def make_func(kind):
  def f(*args):
    a = args[0]
    if not isinstance(a, xr.DataArray):
      return sum(args) * 2
    names = str(a.name)
    if kind == 'scale':
      r = a * 2
      for b in args[1:]:
        r = r + b
      return r
    if kind == 'reduce':
      return a.sum('x') if 'x' in a.dims else a * 3
    if kind == 'subset':  # one variable keeps fewer entries
      return a.isel(x=slice(0, 1)) if 'x' in a.dims and names in ('a', 'None') else a
    if kind == 'conflict_coord':
      return a.assign_coords(lev=float(sum(map(ord, names))))
    if kind == 'conflict_index':
      return a.assign_coords(x=np.arange(a.sizes['x']) + (ord(names[0]) % 5)) if 'x' in a.dims else a
    if kind == 'extra_coord':
      return a.assign_coords(lev=3.5) if names == 'b' else a
    if kind == 'none':
      return None if names in ('b', 'None') else a + 1
    if kind == 'all_none':
      return None
    if kind == 'number':
      return float(a.sum()) if names == 'a' else a
    if kind == 'numpy':
      return np.asarray(a)
    if kind == 'transpose':
      return a.transpose()
    if kind == 'newdim':
      return a.expand_dims(q=[1, 2]) if names != 'c' else a.expand_dims(q=[2, 3])
    if kind == 'dropcoord':
      return a.reset_coords(drop=True)
    raise AssertionError(kind)
  return f


def compatible(arrays):
  """Whether the arrays can live in one data set without changing any of them."""
  size, idx, aux = {}, {}, {}
  for a in arrays:
    for d in a.dims:
      if size.setdefault(d, a.sizes[d]) != a.sizes[d]:
        return False
    for c in a.coords:
      key = (tuple(a[c].dims), np.asarray(a[c].values).tolist())
      if aux.setdefault(c, key) != key:
        return False
  return True


def own(got, exp, what):
  same_da(got, exp, what)
  check(got.dims == exp.dims, lambda: f'{what}: dim order {got.dims} vs {exp.dims}')
  check(got.dtype == exp.dtype, lambda: f'{what}: dtype {got.dtype} vs {exp.dtype}')
  for c in exp.coords:
    check(c in got.coords, f'{what}: coordinate {c} lost')
    same_np(got[c].values, exp[c].values, f'{what}: coordinate {c}')


def compare(got, exp_fn, inp, path, ctx):
  if isinstance(inp[0], xr.Dataset):
    exp = {k: exp_fn(*[x[k] for x in inp]) for k in inp[0]}
    arrays = [v for v in exp.values() if v is not None]
    if all(v is None or isinstance(v, xr.DataArray) for v in exp.values()) and compatible(arrays):
      ctx.label('ds stays ds')
      check(isinstance(got, xr.Dataset), lambda: f'{path}: expected a data set, got {type(got)}')
      want = {k for k, v in exp.items() if v is not None}
      check(set(got.data_vars) == want, lambda: f'{path}: variables {set(got.data_vars)} vs {want}')
      for k in want:
        own(got[k], exp[k], f'{path}/{k}')
    else:
      ctx.label('ds becomes mapping')
      check(type(got) is dict, lambda: f'{path}: expected a dict, got {type(got)}')
      check(list(got) == list(exp), lambda: f'{path}: keys {list(got)} vs {list(exp)}')
      for k, e in exp.items():
        if isinstance(e, xr.DataArray):
          own(got[k], e, f'{path}/{k}')
          check(set(got[k].coords) == set(e.coords), f'{path}/{k}: coordinates changed')
        else:
          check((got[k] is None) == (e is None) and (e is None or np.array_equal(got[k], e)), f'{path}/{k}: {got[k]} vs {e}')
    return
  if isinstance(inp[0], dict):
    check(type(got) is dict and list(got) == list(inp[0]), lambda: f'{path}: {got} vs keys {list(inp[0])}')
    for k in inp[0]:
      compare(got[k], exp_fn, [x[k] for x in inp], path + (k,), ctx)
    return
  if isinstance(inp[0], (list, tuple)):
    check(type(got) is type(inp[0]) and len(got) == len(inp[0]), lambda: f'{path}: {type(got)} of {got}')
    for i in range(len(inp[0])):
      compare(got[i], exp_fn, [x[i] for x in inp], path + (i,), ctx)
    return
  e = exp_fn(*inp)
  if isinstance(e, xr.DataArray):
    check(isinstance(got, xr.DataArray), f'{path}: {got}')
    own(got, e, str(path))
  else:
    check(got is None if e is None else np.array_equal(got, e), f'{path}: {got} vs {e}')


@test('P30', cases(), quick=5000)
def leafwise(case, ctx):
  args = [build(case['tree'], i, case['shuffle']) for i in range(case['nargs'])]
  before = [list(flatten(a)) for a in args]
  before = [[(p, v.copy(deep=True) if isinstance(v, xr.DataArray) else v) for p, v in b] for b in before]
  calls = []
  f = make_func(case['func'])

  def func(*a):
    calls.append(tuple(id_of(x) for x in a))
    return f(*a)

  def id_of(x):
    return (str(x.name), x.dims, np.asarray(x.values).tobytes()) if isinstance(x, xr.DataArray) else x
  got = xarray_tree.map_structure(func, *args)
  leaves = [dict(flatten(a)) for a in args]
  expected = [tuple(id_of(l[p]) for l in leaves) for p in leaves[0]]
  ctx.nt(len(expected) > 1)
  ctx.label('func=' + case['func'], 'top=' + case['tree']['t'], f"nargs={case['nargs']}")
  check(sorted(map(repr, calls)) == sorted(map(repr, expected)), lambda: f'calls {calls} vs {expected}')
  compare(got, f, args, (), ctx)
  for a, b in zip(args, before):
    for (p, v), (q, w) in zip(flatten(a), b):
      check(p == q, 'input structure changed')
      if isinstance(v, xr.DataArray):
        check(v.identical(w), f'input {p} changed')


@st.composite
def set_cases(draw):
  return dict(vals=draw(st.lists(st.integers(-20, 20), max_size=6, unique=True)), mul=draw(st.sampled_from([2, -1, 0])))


@test('P30', set_cases(), quick=300)
def sets_and_rejections(case, ctx):
  got = xarray_tree.map_structure(lambda x: x * case['mul'], {'k': set(case['vals'])})
  ctx.nt(len(case['vals']) > 1)
  check(got == {'k': {v * case['mul'] for v in case['vals']}}, lambda: f'{got}')
  for bad, exc in ((lambda: xarray_tree.map_structure(3, case['vals']), TypeError),
                   (lambda: xarray_tree.map_structure(lambda x: x), ValueError)):
    try:
      bad()
    except exc:
      continue
    fail('invalid call accepted')
