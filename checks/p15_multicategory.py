"""P15: multi-category, reliability and confidence/coverage/overlap scores equal their definitions."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, ptgen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical as cat, probabilistic as prob, wrappers

RULE = ('CDF and raw forecasts/observations with values on category edges, 1-4 edges incl. infinite, either interval '
        'convention, ensembles on forecasts or both, missing values, quantile climatologies by valid time; non-trivial = '
        'some score is neither 0 nor 1, or a value lies exactly on an edge')
ASSUMPTIONS = ['category edges are strictly increasing', 'for quantile comparisons a value within 1e-9 of a '
               'non-exactly-representable interpolated quantile may fall on either side']


def lists_of_edges(mx=4):
  return st.lists(st.sampled_from([-3.0, -2.0, -1.5, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0]), min_size=1, max_size=mx, unique=True).map(sorted)


# ------------------------------------------------------------ ranked probability score

@st.composite
def rps_cases(draw):
  c = draw(ptgen.pairs(kinds=('int', 'normal'), dtype=('float64',)))
  c['edges'] = draw(lists_of_edges())
  c['inf'] = draw(st.booleans())
  c['right'] = draw(st.booleans())
  c['perfect'] = draw(st.booleans())
  return c


def cdf(x, edges, right):
  x = x[..., None]
  with np.errstate(invalid='ignore'):
    y = (x <= np.array(edges)) if right else (x < np.array(edges))
  return np.where(np.isnan(x), np.nan, y * 1.0)


@test('P15', rps_cases(), quick=700)
def rps_of_cdfs(case, ctx):
  p, t = ptgen.make(case)
  if case['perfect'] and not case['tlabels']:
    t = {k: p.get(k, v) for k, v in t.items()}
  edges = ([-np.inf] + case['edges'] + [np.inf]) if case['inf'] else case['edges']
  tr = wrappers.ContinuousToCDF('both', edges, 'bin', right_inclusive=case['right'])
  m = wrappers.WrappedMetric(cat.RankedProbabilityScore('bin'), [tr])
  stat = m.statistics['self']
  out = stat.compute(p, t)
  names = {v['name'] for v in case['vars']}
  check(set(out) == names, lambda: f'variables {set(out)}')
  direct = cat.RankedProbabilityScore('bin')
  for v in case['vars']:
    P, T, _ = ptgen.aligned(case, v, p[v['name']], t[v['name']])
    e = ((cdf(P, edges, case['right']) - cdf(T, edges, case['right'])) ** 2).sum(-1)
    r = ptgen.ref(case, v, e)
    ctx.nt(bool(np.any(e > 0)) or bool(np.isin(P, edges).any()))
    ctx.label(f'right={case["right"]}', f'missing={bool(np.isnan(e).any())}')
    same_da(out[v['name']], r, f"RPS[{v['name']}] of raw values", sort=True)
    check(bool((out[v['name']].fillna(0) >= 0).all()), 'negative RPS')
    if case['perfect'] and not case['tlabels']:
      check(bool((out[v['name']].fillna(0) == 0).all()), 'RPS of a perfect forecast is not zero')
    # Probabilistic CDF inputs: fractional values.
    mk = lambda x, s: ptgen.ref(case, v, gen.rng([v['p']['seed'], s]).integers(0, 5, size=x.shape + (len(edges),)) / 4.0,
                                ['bin'], {'bin': np.arange(len(edges))}).where(ptgen.ref(case, v, ~np.isnan(x)))
    a, b = mk(P, 1), mk(T, 2)
    res = direct.compute({'x': a}, {'x': b})['x']
    ex = ((a.transpose(*v['dims'], 'bin').values - b.transpose(*v['dims'], 'bin').values) ** 2).sum(-1)
    same_da(res, ptgen.ref(case, v, ex), 'RPS of CDFs', sort=True)


@st.composite
def erps_cases(draw):
  c = draw(ptgen.pairs(kinds=('int', 'normal'), dtype=('float64',), ensemble=True, nan=(0.0, 0.0, 0.1, 0.4)))
  n = draw(st.integers(1, 3))
  ed = st.lists(st.sampled_from([-2.0, -1.0, 0.0, 1.0, 2.0]), min_size=n, max_size=n, unique=True).map(sorted)
  c['pe'] = [draw(ed) for _ in c['vars']]
  c['te'] = [draw(ed) for _ in c['vars']] if draw(st.booleans()) else c['pe']
  c['right'] = draw(st.booleans())
  c['fair'] = draw(st.booleans())
  c['skipna'] = draw(st.booleans())
  c['tens'] = draw(st.integers(0, 4))
  c['list'] = draw(st.booleans()) and len(c['vars']) == 1
  c['perfect'] = draw(st.integers(0, 4)) == 0
  return c


def meanvar(x, skipna):
  """Mean, unbiased variance and count over the last axis."""
  n = (~np.isnan(x)).sum(-1) if skipna else np.full(x.shape[:-1], x.shape[-1])
  z = np.where(np.isnan(x), 0.0, x) if skipna else x
  with np.errstate(all='ignore'):
    m = z.sum(-1) / np.where(n == 0, np.nan, n)
    d = (z - m[..., None]) ** 2
    if skipna:
      d = np.where(np.isnan(x), 0.0, d)
    v = d.sum(-1) / np.where(n < 2, np.nan, n - 1)
  return m, v, n


@test('P15', erps_cases(), quick=600)
def ensemble_rps(case, ctx):
  p, t = ptgen.make(case)
  ens = case['ens_dim']
  if case['tens']:
    t = {k: v.expand_dims({ens: np.arange(case['tens'])}) + xr.DataArray(np.arange(case['tens']) % 2, dims=[ens]) for k, v in t.items()}
    t = {k: v.rename(k) for k, v in t.items()}
  if case['perfect'] and not case['tlabels']:
    p = {k: (v * 0 + t[k].isel({ens: 0}, drop=True) if case['tens'] else v * 0 + t[k]) if k in t else v for k, v in p.items()}
    p = {k: v.transpose(*ptgen.make(case)[0][k].dims).rename(k) for k, v in p.items()}
  n = len(case['pe'][0])
  def thr(which):
    d = {v['name']: xr.DataArray(case[which][i], dims=['bin'], coords={'bin': np.arange(n)}) for i, v in enumerate(case['vars'])}
    return xr.Dataset(d)
  if case['list']:
    pt, tt = thr('pe')['v0'], thr('te')['v0']
  else:
    pt, tt = thr('pe'), thr('te')
  p = {v['name']: p[v['name']] for v in case['vars']}
  t = {v['name']: t[v['name']] for v in case['vars']}
  kw = dict(skipna_ensemble=case['skipna'], fair=case['fair'], right_inclusive=case['right'])
  stat = prob.EnsembleRankedProbabilityScore(pt, tt, 'bin', 'suffix', ensemble_dim=ens, **kw)
  ctx.label(f"fair={case['fair']}", f"right={case['right']}", f"skipna={case['skipna']}", f"tens={case['tens'] > 0}",
            f"M={case['members']}")
  out = stat.compute(p, t)
  check(set(out) == set(p), f'variables {set(out)}')
  for i, v in enumerate(case['vars']):
    n_ = v['name']
    P, _, _ = ptgen.aligned(case, v, p[n_], t[n_].isel({ens: 0}, drop=True) if case['tens'] else t[n_])
    if case['tens']:
      T = np.stack([ptgen.aligned(case, v, p[n_], t[n_].isel({ens: j}, drop=True))[1] for j in range(case['tens'])], -1)
    else:
      T = ptgen.aligned(case, v, p[n_], t[n_])[1]
    F = np.moveaxis(cdf(P, case['pe'][i], case['right']), -1, -2)  # ..., bin, member
    fm, fv, fn = meanvar(F, case['skipna'])
    if case['tens']:
      G = np.moveaxis(cdf(T, case['te'][i], case['right']), -1, -2)
      gm, gv, gn = meanvar(G, case['skipna'])
    else:
      gm, gv, gn = cdf(T, case['te'][i], case['right']), 0.0, 1
    with np.errstate(all='ignore'):
      e = (fm - gm) ** 2
      if case['fair']:
        e = e - fv / fn - gv / gn
    e = e.sum(-1)
    ctx.nt(bool(np.any((e != 0) & np.isfinite(e))))
    ctx.label(f'missing={bool(np.isnan(e).any())}')
    same_da(out[n_], ptgen.ref(case, v, e), f'ensemble RPS[{n_}]', sort=True)
    if not case['fair']:
      check(bool((out[n_].fillna(0) >= -1e-12).all()), 'negative unfair RPS')


# ------------------------------------------------------------ reliability

@st.composite
def rel_cases(draw):
  c = draw(ptgen.pairs(kinds=('prob', 'unif'), target_kinds=('binary', 'mostly0'), dtype=('float64',), labels=False,
                       nan=(0.0, 0.0, 0.2)))
  for v in c['vars']:
    v['tenth'] = draw(st.booleans())
  c['edges'] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 0.125, 0.25, 0.5, 0.75, 0.875, 1.0]), min_size=2, max_size=5, unique=True).map(sorted)))
  c['lowinf'] = draw(st.booleans())
  c['reduce'] = [d for d in c['sizes'] if draw(st.integers(0, 3)) > 0]
  c['skipna'] = draw(st.booleans())
  return c


@test('P15', rel_cases(), quick=400)
def reliability(case, ctx):
  p, t = ptgen.make(case)
  for v in case['vars']:
    if v['tenth']:  # exact multiples of the default edges
      p[v['name']] = (p[v['name']] * 10).round() / 10
  if case['edges'] is None:
    edges = [-np.inf, .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.0]
    m = cat.Reliability()
    dim = 'reliability_bin'
  else:
    edges = ([-np.inf] if case['lowinf'] else []) + case['edges']
    dim = 'rb'
    m = cat.Reliability(bin_values=edges, bin_dim=dim)
  red = case['reduce']
  agg = aggregation.Aggregator(reduce_dims=red, skipna=case['skipna'])
  stats = base.compute_unique_statistics_for_all_metrics({'r': m}, p, t)
  st_ = agg.aggregate_statistics(stats)
  means = {s: dict(x) for s, x in st_.mean_statistics().items()}
  out = base.compute_metric_from_statistics(m, means)
  ctx.label(f"default={case['edges'] is None}", f"skipna={case['skipna']}")
  for v in case['vars']:
    if not set(red) <= set(v['dims']):
      continue
    P, T, coords = ptgen.aligned(case, v, p[v['name']], t[v['name']])
    ax = tuple(v['dims'].index(d) for d in red)
    miss = np.isnan(P) | np.isnan(T)
    cols = []
    for lo, hi in zip(edges[:-1], edges[1:]):
      inb = (P > lo) & (P <= hi)
      a = np.where(miss, 0.0 if case['skipna'] else np.nan, (inb & (T == 1)) * 1.0).sum(axis=ax)
      b = np.where(miss, 0.0 if case['skipna'] else np.nan, (inb & (T == 0)) * 1.0).sum(axis=ax)
      with np.errstate(all='ignore'):
        cols.append(a / np.where(a + b == 0, np.nan, a + b))
    e = np.stack(cols, -1)
    ctx.nt(bool(np.any((e > 0) & (e < 1))) or v['tenth'])
    keep = [d for d in v['dims'] if d not in red]
    got = out[v['name']]
    same_da(got.drop_vars([c for c in got.coords if c == dim]), xr.DataArray(e, dims=keep + [dim], coords={d: coords[d] for d in keep}),
            f"reliability[{v['name']}]", rtol=1e-5, atol=1e-6)
    same_np(got[f'{dim}_left'].values, np.array(edges[:-1]), 'left bin edges')
    same_np(got[f'{dim}_right'].values, np.array(edges[1:]), 'right bin edges')


# ------------------------------------------------------------ confidence, coverage, overlap

@st.composite
def opp_cases(draw):
  n = draw(st.integers(1, 3))
  leads = draw(st.integers(1, 3))
  M = draw(st.sampled_from([1, 2, 3, 5, 5, 9]))
  q = draw(st.sampled_from([(0.1, 0.9), (0.0, 1.0), (0.25, 0.75), (0.5, 1.0), (0.2, 0.7)]))
  q2 = draw(st.sampled_from([(0.1, 0.9), (0.0, 1.0), (0.25, 0.75)]))
  return dict(n=n, leads=leads, M=M, q=q, q2=q2, nv=draw(st.integers(1, 2)),
              p=draw(gen.array_spec(('int', 'normal', 'const'), nan=(0.0, 0.0, 0.1))),
              t=draw(gen.array_spec(('int', 'normal'), nan=(0.0, 0.3))), cseed=draw(gen.seeds),
              cnan=draw(st.sampled_from([0.0, 0.0, 0.3])), ct=draw(st.sampled_from([0.7, 0.5, 1.0, 1.5])), jt=draw(st.sampled_from([0.75, 0.5, 0.25, 0.0])),
              pos=draw(st.integers(0, 3)), hour=draw(st.booleans()), ens=draw(st.sampled_from(['number', 'realization'])),
              start=draw(st.sampled_from(['2020-12-30', '2020-02-28'])),
              flags=[draw(st.booleans()), draw(st.sampled_from([None, True, False])), draw(st.sampled_from([None, True, False]))])


def quant(x, q):
  """Linear-interpolated quantile over the last axis; missing when any member is missing; + exactness."""
  M = x.shape[-1]
  pos = q * (M - 1)
  s = np.sort(x, axis=-1)
  lo = int(np.floor(pos))
  hi = min(lo + 1, M - 1)
  f = pos - lo
  y = s[..., lo] + f * (s[..., hi] - s[..., lo]) if f else s[..., lo]
  return np.where(np.isnan(x).any(-1), np.nan, y), f == 0 or M == 1


def cmp_bool(got, exp, amb, what, ref):
  """0/1/NaN equality except where ambiguous (rounding at a boundary)."""
  g = got.transpose(*ref.dims).values.astype(float)
  check(g.shape == exp.shape, f'{what}: shape {g.shape} vs {exp.shape}')
  ok = (g == exp) | (np.isnan(g) & np.isnan(exp)) | (amb & ((g == 0) | (g == 1)))
  check(bool(ok.all()), lambda: f'{what}: got\n{g}\nexpected\n{exp}')


@test('P15', opp_cases(), quick=600)
def confidence_coverage_overlap(case, ctx):
  ini = gen.times(case['n'], case['start'], 24)
  led = gen.h2td(np.arange(case['leads']) * 6)
  names = [f'v{i}' for i in range(case['nv'])]
  ens = case['ens']
  dims = ['init_time', 'lead_time', 'x']
  shape = (case['n'], case['leads'], 2)
  qs = sorted(set(case['q']) | set(case['q2']))
  r = gen.rng(case['cseed'])
  doys = np.arange(1, 367)
  cl = {}
  for k in names:
    if case['hour']:
      a = np.sort(r.integers(-3, 4, size=(366, 4, 2, len(qs))) * 1.0, axis=-1)
      a = np.where(r.uniform(size=a.shape[:3])[..., None] < case['cnan'], np.nan, a)
      cl[k] = xr.DataArray(a, dims=['dayofyear', 'hour', 'x', 'quantile'],
                           coords={'dayofyear': doys, 'hour': [0, 6, 12, 18], 'x': [0, 1], 'quantile': qs})
    else:
      a = np.sort(r.integers(-3, 4, size=(366, 2, len(qs))) * 1.0, axis=-1)
      cl[k] = xr.DataArray(a, dims=['dayofyear', 'x', 'quantile'], coords={'dayofyear': doys, 'x': [0, 1], 'quantile': qs})
  cl = xr.Dataset(cl)
  pd = list(dims)
  pd.insert(case['pos'], ens)
  p, t = {}, {}
  for i, k in enumerate(names):
    p[k] = xr.DataArray(gen.build([{'init_time': case['n'], 'lead_time': case['leads'], 'x': 2, ens: case['M']}[d] for d in pd], case['p'], i),
                        dims=pd, coords={'init_time': ini, 'lead_time': led, 'x': [0, 1]}, name=k)
    t[k] = xr.DataArray(gen.build(shape, case['t'], i), dims=dims, coords={'init_time': ini, 'lead_time': led, 'x': [0, 1]}, name=k)
  q, q2 = tuple(case['q']), tuple(case['q2'])
  conf = cat.Confident(ens, cl, q, case['ct'])
  cov = cat.Covered(ens, q)
  jac = cat.JaccardDistant(ens, cl, case['jt'], q2)
  oc, ov, oj = conf.compute(p, t), cov.compute(p, t), jac.compute(p, t)
  opp = cat.Opportunism(ens, cl, case['flags'][0], case['flags'][1], case['flags'][2], q, q, q2, case['ct'], case['jt'])
  # Values per pair (nothing averaged): the joint statement itself.
  agg = aggregation.Aggregator(reduce_dims=[])
  stt = agg.aggregate_statistics(base.compute_unique_statistics_for_all_metrics({'o': opp}, p, t))
  oo = base.compute_metric_from_statistics(opp, {s: dict(x) for s, x in stt.mean_statistics().items()})
  vt = ini[:, None] + led[None]
  eps = 1e-9
  ctx.label(f"q={q}", f"M={case['M']}", f"flags={case['flags']}")
  for i, k in enumerate(names):
    P = p[k].transpose(*dims, ens).values
    T = t[k].values
    C = np.zeros(shape + (len(qs),))
    for a in range(case['n']):
      for b in range(case['leads']):
        v = vt[a, b].astype('datetime64[s]').item()
        sel = dict(dayofyear=v.timetuple().tm_yday)
        if case['hour']:
          sel['hour'] = v.hour
        C[a, b] = cl[k].sel(sel).transpose('x', 'quantile').values
    lo, ex1 = quant(P, q[0])
    hi, ex2 = quant(P, q[1])
    exact = ex1 and ex2
    with np.errstate(invalid='ignore'):
      # Confident
      lhs, rhs = hi - lo, case['ct'] * (C[..., qs.index(q[1])] - C[..., qs.index(q[0])])
      miss = np.isnan(lhs) | np.isnan(rhs)
      e1 = np.where(miss, np.nan, lhs < rhs)
      a1 = np.abs(lhs - rhs) < eps
      if exact and case['ct'] in (0.5, 1.0, 1.5) and case['p']['kind'] != 'normal':
        a1 = np.zeros_like(a1)
      # Covered
      miss = np.isnan(lo) | np.isnan(T)
      e2 = np.where(miss, np.nan, (lo <= T) & (T <= hi))
      a2 = (np.abs(lo - T) < eps) | (np.abs(hi - T) < eps)
      if exact:
        a2 = np.zeros_like(a2)
      # Jaccard
      l2, exa = quant(P, q2[0])
      h2, exb = quant(P, q2[1])
      cl_, ch_ = C[..., qs.index(q2[0])], C[..., qs.index(q2[1])]
      inter = np.maximum(0, np.minimum(h2, ch_) - np.maximum(l2, cl_))
      union = (h2 - l2) + (ch_ - cl_) - inter
      J = np.where(union > 0, inter / np.where(union > 0, union, 1), 1.0)
      miss = np.isnan(l2) | np.isnan(cl_)
      e3 = np.where(miss, np.nan, (1 - J) > case['jt'])
      a3 = (np.abs(1 - J - case['jt']) < eps) | (np.abs(union) < eps)
      if exa and exb and case['p']['kind'] != 'normal' and case['jt'] in (0.0, 0.5, 0.25, 0.75):
        a3 = (np.abs(1 - J - case['jt']) < eps) & (1 - J != case['jt'])
    ref = xr.DataArray(e1, dims=dims)
    cmp_bool(oc[k], e1, a1, f'Confident[{k}]', ref)
    cmp_bool(ov[k], e2, a2, f'Covered[{k}]', ref)
    cmp_bool(oj[k], e3, a3, f'JaccardDistant[{k}]', ref)
    fl = case['flags']
    e = e1 if fl[0] else 1 - e1
    amb = a1
    if fl[1] is not None:
      e = e * (e2 if fl[1] else 1 - e2)
      amb = amb | a2
    if fl[2] is not None:
      e = e * (e3 if fl[2] else 1 - e3)
      amb = amb | a3
    cmp_bool(oo[k], e, amb, f'Opportunism[{k}]', ref)
    ctx.nt(len(set(np.unique(e1[~np.isnan(e1)])) | set(np.unique(e2[~np.isnan(e2)]))) > 1)
    ctx.label(f'missing={bool(np.isnan(e1).any() or np.isnan(e2).any())}', f'exact={exact}')
