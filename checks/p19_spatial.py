"""P19: neighbourhood (fractions) scores equal brute-force neighbourhoods."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, spatial

RULE = ('grids of 1-9 by 1-9 points with 0-2 other dimensions in any order, binary/probability fields (dense, sparse, zero), '
        'missing values, masks on targets, predictions or both, 1-4 odd sizes (also larger than the grid), wrap on or off; '
        'non-trivial = some neighbourhood of more than one point lies inside the grid')
ASSUMPTIONS = ['wrapping neighbourhoods are not wider than the longitude circle has points',
               'when predictions and targets both carry a mask it is the same mask, as with a mask shared by the pair']


def brute(x, n, wrap):
  """x[lat, lon] -> (average over the n x n neighbourhood, inside) ; outside -> 0."""
  h = (n - 1) // 2
  ny, nx = x.shape
  out, ins = np.zeros((ny, nx)), np.zeros((ny, nx), bool)
  for i in range(ny):
    for j in range(nx):
      if i - h < 0 or i + h >= ny or (not wrap and (j - h < 0 or j + h >= nx)):
        continue
      ins[i, j] = True
      s = 0.0
      for a in range(i - h, i + h + 1):
        for b in range(j - h, j + h + 1):
          s += x[a, b % nx]
      out[i, j] = s / (n * n)
  return out, ins


def brute_nd(v, n, wrap):
  """v[..., lat, lon]."""
  flat = v.reshape((-1,) + v.shape[-2:])
  r = [brute(x, n, wrap) for x in flat]
  return np.array([a for a, _ in r]).reshape(v.shape), np.array([b for _, b in r]).reshape(v.shape)


def mask_ref(m, n, wrap):
  """A point is valid iff its whole neighbourhood is inside the grid and valid."""
  a, ins = brute_nd(m.astype(float), n, wrap)
  return ins & (a > 1 - 1e-9)


@st.composite
def cases(draw):
  ny, nx = draw(st.integers(1, 9)), draw(st.integers(1, 9))
  wrap = draw(st.booleans())
  mx = nx if wrap else max(nx, ny) + 2
  odd = [n for n in (1, 3, 5, 7, 9, 11) if n <= mx]
  sizes = draw(st.one_of(st.sampled_from(odd), st.lists(st.sampled_from(odd), min_size=1, max_size=4, unique=True)))
  nd = draw(st.integers(0, 2))
  kinds = ('binary', 'binary', 'mostly0', 'mostly1', 'prob', 'zero')
  return dict(ny=ny, nx=nx, wrap=wrap, sizes=sizes, extra=draw(st.lists(st.integers(1, 3), min_size=nd, max_size=nd)),
              p=draw(gen.array_spec(kinds, nan=(0.0, 0.0, 0.06), dtype=('float64', 'float32', 'bool'))),
              t=draw(gen.array_spec(kinds, nan=(0.0, 0.0, 0.06), dtype=('float64', 'float32', 'bool'))),
              perm=draw(st.permutations(range(2 + nd))), perm_t=draw(st.permutations(range(2 + nd))),
              mask=draw(st.sampled_from(['none', 'none', 'targets', 'predictions', 'both'])), mseed=draw(gen.seeds),
              mdims=draw(st.sampled_from(['full', 'space', 'space_t'])), mfrac=draw(st.sampled_from([0.05, 0.3])),
              desc=draw(st.booleans()), alone=draw(st.integers(0, 3)), ds=draw(st.booleans()), nv=draw(st.integers(1, 2)))


def build(case):
  nd = len(case['extra'])
  dims = [f'd{i}' for i in range(nd)] + ['latitude', 'longitude']
  shape = tuple(case['extra']) + (case['ny'], case['nx'])
  lat = np.arange(case['ny']) * 10.0
  coords = {'latitude': lat[::-1] if case['desc'] else lat, 'longitude': np.arange(case['nx']) * 10.0}
  def mk(spec, salt):
    sp = dict(spec)
    if sp['dtype'] == 'bool':
      sp['nan'] = 0.0
      if sp['kind'] == 'prob':
        sp['kind'] = 'binary'
    return gen.build(shape, sp, salt)
  out = []
  r = gen.rng(case['mseed'])
  mdims = {'full': dims, 'space': dims[-2:], 'space_t': dims[:-3:-1]}[case['mdims']]
  msh = [shape[dims.index(d)] for d in mdims]
  mask = xr.DataArray(r.uniform(size=msh) > case['mfrac'], dims=mdims, coords={d: coords[d] for d in mdims if d in coords})
  for which, spec, perm in (('predictions', case['p'], case['perm']), ('targets', case['t'], case['perm_t'])):
    vs = {}
    for i in range(case['nv']):
      a = xr.DataArray(mk(spec, i), dims=dims, coords=coords, name=f'v{i}')
      if case['mask'] in (which, 'both'):
        a = a.assign_coords(mask=mask)
      vs[f'v{i}'] = a.transpose(*[dims[j] for j in perm])
    out.append(vs)
  return out[0], out[1], dims, coords, mask


def sizes_of(case):
  return case['sizes'] if isinstance(case['sizes'], list) else [case['sizes']]


@test('P19', cases(), quick=700)
def fractions_equal_brute_force(case, ctx):
  p, t, dims, coords, mask = build(case)
  sz, wrap = case['sizes'], case['wrap']
  sl = sizes_of(case)
  P = {v: p[v].transpose(*dims).values.astype(float) for v in p}
  T = {v: t[v].transpose(*dims).values.astype(float) for v in t}
  m = spatial.FSS(sz, wrap)
  before = {v: (p[v].copy(deep=True), t[v].copy(deep=True)) for v in p}
  use_ds = case['ds'] and case['mask'] == 'none'
  pp, tt = (xr.Dataset(p), xr.Dataset(t)) if use_ds else (p, t)
  stats = base.compute_unique_statistics_for_all_metrics({'fss': m}, pp, tt)
  for v in p:
    check(p[v].identical(before[v][0]) and t[v].identical(before[v][1]), 'inputs were modified')
  ref = {}
  anyin = False
  for v in p:
    rows = [[], [], []]
    for n in sl:
      a, ins = brute_nd(P[v], n, wrap)
      b, _ = brute_nd(T[v], n, wrap)
      anyin |= bool(ins.any()) and n > 1
      for i, z in enumerate([(a - b) ** 2, a ** 2 + 0 * b, b ** 2 + 0 * a]):
        rows[i].append(z)
    ref[v] = [np.array(r) for r in rows]
  ctx.nt(anyin)
  ctx.label(f"wrap={wrap}", f"nsizes={len(sl)}", f"mask={case['mask']}", f"extra={len(case['extra'])}", f'inside={anyin}',
            f"nan={bool(np.isnan(P['v0']).any() or np.isnan(T['v0']).any())}")
  lst = isinstance(sz, list)
  alld = (['neighborhood_size'] if lst else []) + dims
  for i, name in enumerate(['SquaredFractionsError', 'SquaredPredictionFraction', 'SquaredTargetFraction']):
    u = m.statistics[name].unique_name
    check(u in stats, f'{name} not among the statistics')
    for v in p:
      e = ref[v][i] if lst else ref[v][i][0]
      ed = xr.DataArray(e, dims=alld, coords=dict(coords, **({'neighborhood_size': sl} if lst else {})))
      g = stats[u][v]
      if name != 'SquaredFractionsError':
        # Whether a value missing only on the other side is propagated here is unspecified.
        own = P[v] if 'Pred' in name else T[v]
        oth = np.array([np.isnan(brute_nd(T[v] if 'Pred' in name else P[v], n, wrap)[0]) for n in sl])
        oth = xr.DataArray(oth if lst else oth[0], dims=alld)
        free = oth.transpose(*alld).values & ~np.isnan(np.array([brute_nd(own, n, wrap)[0] for n in sl]) if lst else brute_nd(own, sl[0], wrap)[0])
        g = g.transpose(*alld).where(~free, 0) if set(g.dims) == set(alld) else g
        ed = ed.where(~free, 0)
      if set(g.dims) != set(ed.dims):
        fail(f'{name}: dims {g.dims} vs {ed.dims}')
      # A missing value must not leak outside its neighbourhood, nor be hidden inside it.
      same_da(g, ed, f'{name}[{v}] sizes={sz} wrap={wrap}', rtol=2e-5, atol=2e-6)
      if case['mask'] != 'none':
        M = np.broadcast_to(mask.broadcast_like(xr.DataArray(P[v], dims=dims, coords=coords)).transpose(*dims).values, P[v].shape)
        em = np.array([mask_ref(M, n, wrap) if n > 1 else M for n in sl])
        em = xr.DataArray(em if lst else em[0], dims=alld, coords=ed.coords)
        check('mask' in g.coords, f'{name}: the mask is lost')
        gm = g['mask'].broadcast_like(ed).transpose(*alld)
        same_np(gm.values, em.values, f'{name}: mask sizes={sz} wrap={wrap}')
  # Aggregated score.
  fss = aggregation.compute_metric_values_for_single_chunk({'fss': m}, aggregation.Aggregator(reduce_dims=dims), pp, tt)
  for v in p:
    if case['mask'] != 'none' or np.isnan(P[v]).any() or np.isnan(T[v]).any():
      continue
    g = fss[f'fss.{v}']
    num, d1, d2 = [r.reshape(len(sl), -1).sum(axis=1) for r in ref[v]]
    with np.errstate(all='ignore'):
      e = 1 - num / (d1 + d2)
    e = np.where(d1 + d2 == 0, np.nan, e)
    gv = np.atleast_1d(g.values)
    same_np(gv, e if lst else e[:1], f'FSS sizes={sz} wrap={wrap}', rtol=1e-4, atol=1e-4)
    ok = ~np.isnan(gv)
    check(((gv[ok] >= -1e-5) & (gv[ok] <= 1 + 1e-5)).all(), lambda: f'FSS outside [0, 1]: {gv}')


@test('P19', cases(), quick=500)
def masked_score_uses_valid_neighbourhoods_only(case, ctx):
  """Masked aggregation: only points whose whole neighbourhood is valid count."""
  if case['mask'] == 'none':
    case = dict(case, mask='both')
  case = dict(case, p=dict(case['p'], nan=0.0), t=dict(case['t'], nan=0.0))
  p, t, dims, coords, mask = build(case)
  sl, wrap = sizes_of(case), case['wrap']
  m = spatial.FSS(case['sizes'], wrap)
  keep = dims[:1] if len(case['extra']) else []
  red = [d for d in dims if d not in keep]
  got = aggregation.compute_metric_values_for_single_chunk(
      {'fss': m}, aggregation.Aggregator(reduce_dims=red, masked=True), p, t)
  some = False
  for v in p:
    P, T = (x[v].transpose(*dims).values.astype(float) for x in (p, t))
    M = mask.broadcast_like(xr.DataArray(P, dims=dims, coords=coords)).transpose(*dims).values
    e = []
    for n in sl:
      a, b = brute_nd(P, n, wrap)[0], brute_nd(T, n, wrap)[0]
      ok = mask_ref(M, n, wrap) if n > 1 else M
      some |= bool(ok.any() and not ok.all() and n > 1)
      ax = tuple(range(len(keep), len(dims)))
      num = np.where(ok, (a - b) ** 2, 0).sum(axis=ax)
      den = np.where(ok, a ** 2 + b ** 2, 0).sum(axis=ax)
      with np.errstate(all='ignore'):
        e.append(np.where(den == 0, np.nan, 1 - num / den))
    e = np.array(e) if isinstance(case['sizes'], list) else e[0]
    g = got[f'fss.{v}']
    alld = (['neighborhood_size'] if isinstance(case['sizes'], list) else []) + keep
    same_np(g.transpose(*alld).values, e, f'masked FSS sizes={case["sizes"]} wrap={wrap}', rtol=1e-4, atol=1e-4)
  ctx.nt(some)
  ctx.label(f'nsizes={len(sl)}', f"mdims={case['mdims']}")


@test('P19', cases(), quick=400)
def identical_fields_score_one(case, ctx):
  case = dict(case, mask='none', p=dict(case['p'], nan=0.0), t=dict(case['p'], nan=0.0))
  p, t, dims, coords, _ = build(case)
  sl = sizes_of(case)
  m = spatial.FSS(case['sizes'], case['wrap'])
  got = aggregation.compute_metric_values_for_single_chunk({'fss': m}, aggregation.Aggregator(reduce_dims=dims), p, t)
  for v in p:
    P = p[v].transpose(*dims).values.astype(float)
    e = np.array([1.0 if brute_nd(P, n, case['wrap'])[0].any() else np.nan for n in sl])
    ctx.nt(np.isfinite(e).any())
    same_np(np.atleast_1d(got[f'fss.{v}'].values), e if isinstance(case['sizes'], list) else e[:1], 'FSS of identical fields', rtol=1e-5, atol=1e-5)


@test('P19', cases(), quick=300)
def sizes_and_order_are_independent(case, ctx):
  """Each size evaluated alongside others equals the size evaluated alone, also on
  permuted inputs; without wrapping, mirrored fields give mirrored results; with
  wrapping, rotated fields give rotated results; even sizes are rejected."""
  p, t, dims, coords, mask = build(case)
  sl, wrap = sizes_of(case), case['wrap']
  ctx.nt(len(sl) > 1)
  f = lambda a, s: spatial.neighborhood_averaging(a, s, wrap)
  a = p['v0']
  al = f(a, sl)
  n = sl[case['alone'] % len(sl)]
  one = f(a.transpose(*dims), n)
  same_np(al.sel(neighborhood_size=n).transpose(*dims).values, one.transpose(*dims).values, f'size {n} among {sl}', rtol=1e-6, atol=1e-6)
  if case['mask'] in ('predictions', 'both'):
    g = al['mask']
    g = g.sel(neighborhood_size=n) if 'neighborhood_size' in g.dims else g
    o = one['mask']
    b = lambda z: z.broadcast_like(one).transpose(*dims).values
    same_np(b(g), b(o), f'mask of size {n} among {sl}')
  if wrap and n <= case['nx']:
    k = case['alone'] + 1
    r = a.roll(longitude=k)
    same_np(f(r, n).transpose(*dims).values, one.roll(longitude=k).transpose(*dims).values, f'rotation by {k}', rtol=1e-5, atol=1e-6)
  if not np.isnan(a.values.astype(float)).any():
    r = a.isel(latitude=slice(None, None, -1))
    same_np(f(r, n).isel(latitude=slice(None, None, -1)).transpose(*dims).values, one.transpose(*dims).values, 'mirror', rtol=1e-5, atol=1e-6)
  expect_raises(lambda: f(a, n + 1), ValueError, 'an even neighbourhood size')
