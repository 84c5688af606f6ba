"""P16: the ensemble CRPS family equals its pairwise definition."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, ptgen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, probabilistic as prob

RULE = ('ensembles of 1-6 members (ties, constants, wide ranges, missing members), optional target ensembles of 1-5, any '
        'dim order, label-shuffled targets, fair/biased x pairwise/sorted x skip/propagate; non-trivial = at least two '
        'distinct members somewhere')
ASSUMPTIONS = ['sorted algorithm with skipped members and ensembles of one member without skipping are rejected (documented)',
               'with skipping, one valid member and the biased estimate, spread may be 0 (definition) or missing (docstring)']


@st.composite
def cases(draw, tens=True, labels=True, min_members=1):
  c = draw(ptgen.pairs(kinds=('int', 'normal', 'wide', 'const'), ensemble=True, nan=(0.0, 0.0, 0.1, 0.4), labels=labels,
                       dtype=('float64', 'float64', 'float64', 'float32')))
  c['members'] = max(min_members, c['members'])
  c['N'] = draw(st.sampled_from([0, 0, 1, 2, 3, 5])) if tens else 0
  c['fair'] = draw(st.booleans())
  c['sort'] = draw(st.booleans())
  c['skipna'] = draw(st.booleans())
  c['reduce'] = [d for d in c['sizes'] if draw(st.booleans())]
  c['mperm'] = draw(st.permutations(range(c['members'])))
  c['tpos'] = draw(st.integers(0, 3))
  c['mlabels'] = draw(st.booleans())
  return c


def make(case):
  p, t = ptgen.make(case)
  ens = case['ens_dim']
  if not case['mlabels']:
    p = {k: v.drop_vars(ens) if ens in v.coords else v for k, v in p.items()}
  if case['N']:
    out = {}
    for i, (k, v) in enumerate(t.items()):
      r = gen.rng([case['vars'][0]['t']['seed'], 77, i])
      off = xr.DataArray(r.integers(-2, 3, size=case['N']).astype(float), dims=[ens])
      miss = xr.DataArray(r.uniform(size=case['N']) < (0.3 if case['vars'][0]['t']['nan'] else 0), dims=[ens])
      x = (v + off.astype(v.dtype)).where(~miss)
      d = [q for q in x.dims if q != ens]
      d.insert(min(case['tpos'], len(d)), ens)
      x = x.transpose(*d)
      out[k] = x.assign_coords({ens: np.arange(case['N']) + 5}) if case['mlabels'] else x
    t = out
  return p, t


def arrays(case, v, p, t):
  """P[..., M], T[..., N or 1] on common labels."""
  n, ens = v['name'], case['ens_dim']
  if case['N']:
    T = []
    for j in range(case['N']):
      P, Tj, _ = ptgen.aligned(case, v, p[n], t[n].isel({ens: j}, drop=True))
      T.append(Tj)
    return P, np.stack(T, -1)
  P, T, _ = ptgen.aligned(case, v, p[n], t[n])
  return P, T[..., None]


def skill(P, T, skipna):
  out = np.full(P.shape[:-1], np.nan)
  for i in np.ndindex(*out.shape):
    d = [abs(a - b) for a in P[i] for b in T[i]]
    if skipna:
      d = [x for x in d if not np.isnan(x)]
    out[i] = sum(d) / len(d) if d else np.nan
  return out


def spread(X, fair, skipna):
  """-> values, positions where 0 and NaN are both acceptable."""
  out = np.full(X.shape[:-1], np.nan)
  amb = np.zeros(out.shape, bool)
  for i in np.ndindex(*out.shape):
    x = [a for a in X[i] if not (skipna and np.isnan(a))]
    M = len(x)
    den = M * (M - 1) if fair else M * M
    if den:
      out[i] = sum(abs(a - b) for a in x for b in x) / den
      amb[i] = skipna and M == 1
  return out, amb


def tolerance(case, v):
  f32 = 'float32' in (v['p']['dtype'], v['t']['dtype'])
  wide = 'wide' in (v['p']['kind'], v['t']['kind'])
  return dict(rtol=1e-4 if f32 else 1e-8, atol=(5e-4 if f32 else 1e-8) * (1e4 if wide else 1))


def labelnt(case, ctx, p):
  ctx.nt(any(bool((v.max(case['ens_dim']) > v.min(case['ens_dim'])).any()) for v in p.values() if v.size))
  ctx.label(f"M={case['members']}", f"N={case['N']}", f"fair={case['fair']}", f"sort={case['sort']}", f"skipna={case['skipna']}",
            f"nan={any(v['p']['nan'] for v in case['vars'])}")


def cmpamb(got, exp, amb, case, v, what):
  ref = ptgen.ref(case, v, exp)
  if amb.any():
    a = ptgen.ref(case, v, amb)
    g = got
    for d in v['dims']:
      g, a, ref = g.sortby(d), a.sortby(d), ref.sortby(d)
    a = a.transpose(*g.dims)
    bad = a.values & ~(np.isnan(g.values) | (g.values == ref.transpose(*g.dims).values))
    check(not bad.any(), f'{what}: one-member value')
    got, ref = g.where(~a.values), ref.where(~a.transpose(*ref.dims).values)
  same_da(got, ref, what, sort=True, **tolerance(case, v))


@test('P16', cases(), quick=800)
def skill_and_spread(case, ctx):
  p, t = make(case)
  labelnt(case, ctx, p)
  ens, names = case['ens_dim'], {v['name'] for v in case['vars']}
  out = prob.CRPSSkill(ensemble_dim=ens, skipna_ensemble=case['skipna']).compute(p, t)
  check(set(out) == names, f'variables {set(out)}')
  A = {v['name']: arrays(case, v, p, t) for v in case['vars']}
  for v in case['vars']:
    P, T = A[v['name']]
    same_da(out[v['name']], ptgen.ref(case, v, skill(P, T, case['skipna'])), f"CRPS skill[{v['name']}]", sort=True, **tolerance(case, v))
  for which in ['predictions'] + (['targets'] if case['N'] else []):
    stat = prob.CRPSSpread(ensemble_dim=ens, use_sort=case['sort'], fair=case['fair'], which=which, skipna_ensemble=case['skipna'])
    M = case['members'] if which == 'predictions' else case['N']
    if (case['sort'] and case['skipna']) or (not case['skipna'] and M < 2):
      expect_raises(lambda: stat.compute(p, t), ValueError, f'CRPS spread of {M} members, sort={case["sort"]}, skipna={case["skipna"]}')
      continue
    out = stat.compute(p, t)
    for v in case['vars']:
      # Spread of one input does not involve the other: its own labels.
      x = (p if which == 'predictions' else t)[v['name']]
      X = x.transpose(*v['dims'], ens).values.astype(float)
      e, amb = spread(X, case['fair'], case['skipna'])
      r = xr.DataArray(e, dims=v['dims'], coords={d: x[d] for d in v['dims']})
      a = xr.DataArray(amb, dims=v['dims'], coords=r.coords)
      g = out[v['name']].transpose(*v['dims'])
      check(bool((np.isnan(g.values) | (g.values == e) | ~amb).all()), 'one-member spread')
      same_da(g.where(~a), r.where(~a), f"CRPS spread of {which}[{v['name']}]", sort=True, **tolerance(case, v))
      check(bool((g.fillna(0) >= -tolerance(case, v)['atol']).all()), 'negative spread')


def metric(case, m, p, t, reduce_dims):
  stats = base.compute_unique_statistics_for_all_metrics({'m': m}, p, t)
  st_ = aggregation.Aggregator(reduce_dims=reduce_dims).aggregate_statistics(stats)
  return base.compute_metric_from_statistics(m, {s: dict(x) for s, x in st_.mean_statistics().items()})


def valid_config(case):
  """A configuration the classes accept."""
  c = dict(case)
  if c['skipna']:
    c['sort'] = False
  return c


@test('P16', cases(), quick=600)
def crps_metrics(case, ctx):
  case = valid_config(case)
  # Same labels along reduced dims so that averages agree whatever the join.
  p, t = make(case)
  labelnt(case, ctx, p)
  ens = case['ens_dim']
  kw = dict(ensemble_dim=ens, use_sort=case['sort'], fair=case['fair'], skipna_ensemble=case['skipna'])
  case0 = dict(case)
  if case['tlabels']:
    return
  red = case['reduce']
  small = (case['members'] < 2 or (case['N'] == 1)) and not case['skipna']
  exp = {}
  for v in case['vars']:
    P, T = arrays(case, v, p, t)
    sk = skill(P, T, case['skipna'])
    sp, amb = spread(P, case['fair'], case['skipna'])
    st_, amb2 = spread(T, case['fair'], case['skipna']) if case['N'] else (0, np.zeros(sk.shape, bool))
    ax = tuple(v['dims'].index(d) for d in red if d in v['dims'])
    full = set(red) <= set(v['dims'])
    m = lambda x: x.mean(axis=ax) if ax else x
    exp[v['name']] = (m(sk - 0.5 * sp), m(sk - 0.5 * sp - 0.5 * st_), amb.any(), amb2.any(), full, v)
  jobs = []
  if case['members'] >= 2 or case['skipna']:
    jobs.append(('CRPSEnsemble', prob.CRPSEnsemble(**kw), 0))
  else:
    expect_raises(lambda: metric(case, prob.CRPSEnsemble(**kw), p, t, red), ValueError, 'CRPS of one member')
  if case['N']:
    if not small:
      jobs.append(('CRPSEnsembleDistance', prob.CRPSEnsembleDistance(**kw), 1))
    else:
      expect_raises(lambda: metric(case, prob.CRPSEnsembleDistance(**kw), p, t, red), ValueError, 'distance with one member')
  for what, m, k in jobs:
    out = metric(case, m, p, t, red)
    for n, e in exp.items():
      v = e[5]
      if not e[4]:
        check(n not in out, f'{what}: {n} lacks a reduced dimension')
        continue
      if e[2] or (k and e[3]):
        continue
      keep = [d for d in v['dims'] if d not in red]
      lab = {d: p[n][d] for d in keep}
      same_da(out[n], xr.DataArray(e[k], dims=keep, coords=lab), f'{what}[{n}]', sort=True, **tolerance(case, v))
      if not case['fair'] and 'float32' not in (v['p']['dtype'], v['t']['dtype']):
        check(bool((out[n].fillna(0) >= -1e-6).all()), f'{what}: negative biased value')


@test('P16', cases(min_members=2), quick=300)
def order_shift_scale_and_algorithm(case, ctx):
  case = dict(case, sort=False, tlabels={})
  p, t = make(case)
  labelnt(case, ctx, p)
  ens = case['ens_dim']
  mk = lambda sort=False: (prob.CRPSEnsembleDistance if case['N'] >= 2 else prob.CRPSEnsemble)(
      ensemble_dim=ens, use_sort=sort, fair=case['fair'], skipna_ensemble=case['skipna'])
  run = lambda P, T, sort=False: metric(case, mk(sort), P, T, [])
  o = run(p, t)
  perm = {k: v.isel({ens: case['mperm']}) for k, v in p.items()}
  o1 = run(perm, t)
  aff = lambda x: {k: -3.0 * v + 7.0 for k, v in x.items()}
  o2 = run(aff(p), aff(t))
  o3 = None if case['skipna'] else run(p, t, True)
  for v in case['vars']:
    n = v['name']
    tol = tolerance(case, v)
    tol['atol'] *= 10
    same_da(o1[n], o[n], f'{n}: reordered members', **tol)
    same_da(o2[n], 3.0 * o[n], f'{n}: affine change of units', **tol)
    if o3 is not None:
      same_da(o3[n], o[n], f'{n}: sorted vs pairwise algorithm', **tol)
  if case['N'] >= 2 and not case['fair'] and not case['skipna']:
    same = run({k: v for k, v in t.items()}, t)
    for k, v in same.items():
      check(bool((abs(v.fillna(0)) < 1e-2 if 'wide' in str(case) else abs(v.fillna(0)) < 1e-3).all()), 'distance of a distribution to itself')


@test('P16', cases(labels=False), quick=400)
def wasserstein(case, ctx):
  p, t = make(case)
  labelnt(case, ctx, p)
  ens = case['ens_dim']
  stat = prob.WassersteinDistance(ensemble_dim=ens)
  if not case['N']:
    expect_raises(lambda: stat.compute(p, t), ValueError, 'Wasserstein without target ensemble')
    return
  out = stat.compute(p, t)
  for v in case['vars']:
    P, T = arrays(case, v, p, t)
    e = np.full(P.shape[:-1], np.nan)
    for i in np.ndindex(*e.shape):
      a, b = P[i], T[i]
      if np.isnan(a).any() or np.isnan(b).any():
        continue
      # Optimal transport on the line: quantile functions on a common refinement.
      L = int(np.lcm(len(a), len(b)))
      e[i] = np.abs(np.repeat(np.sort(a), L // len(a)) - np.repeat(np.sort(b), L // len(b))).mean()
    same_da(out[v['name']], ptgen.ref(case, v, e), f"Wasserstein[{v['name']}]", sort=True, **tolerance(case, v))
