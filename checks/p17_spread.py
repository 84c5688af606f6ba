"""P17: ensemble spread, bias-correction, rank and economic-value scores match their definitions."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, ptgen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from checks.p16_crps import make, arrays, tolerance, metric
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical as cat, deterministic as det, probabilistic as prob, wrappers

RULE = ('ensembles of 1-6 members (ties, constants, missing members), optional target ensembles, any dim order and labels, '
        'averaging over random dims; probability forecasts k/M with exact-threshold hits for economic value; non-trivial = '
        'members differ somewhere or the outcome mixes events and non-events')
ASSUMPTIONS = ['ratios whose denominator is within rounding of zero are not compared']


@st.composite
def cases(draw, tens=True, labels=True):
  c = draw(ptgen.pairs(kinds=('int', 'normal', 'const', 'unif'), ensemble=True, nan=(0.0, 0.0, 0.1, 0.4), labels=labels,
                       dtype=('float64', 'float64', 'float64', 'float32')))
  c['N'] = draw(st.sampled_from([0, 0, 1, 2, 4])) if tens else 0
  c['skipna'] = draw(st.booleans())
  c['reduce'] = [d for d in c['sizes'] if draw(st.booleans())]
  c['mperm'] = draw(st.permutations(range(c['members'])))
  c['tpos'] = draw(st.integers(0, 3))
  c['mlabels'] = draw(st.booleans())
  c['perfect'] = draw(st.integers(0, 5)) == 0
  return c


def mv(x, skipna):
  """mean, unbiased variance, count over the last axis."""
  m, v, n = (np.full(x.shape[:-1], np.nan) for _ in range(3))
  for i in np.ndindex(*m.shape):
    a = [z for z in x[i] if not (skipna and np.isnan(z))]
    n[i] = len(a)
    if len(a):
      m[i] = sum(a) / len(a)
    if len(a) > 1:
      v[i] = sum((z - m[i]) ** 2 for z in a) / (len(a) - 1)
  return m, v, n


def nt(case, ctx, p):
  ctx.nt(any(bool((v.max(case['ens_dim']) > v.min(case['ens_dim'])).any()) for v in p.values() if v.size))
  ctx.label(f"M={case['members']}", f"N={case['N']}", f"skipna={case['skipna']}", f"nan={any(v['p']['nan'] for v in case['vars'])}")


def avg(case, v, x):
  """Plain mean over the reduced dims with kept labels."""
  red = case['reduce']
  ax = tuple(v['dims'].index(d) for d in red)
  return x.mean(axis=ax) if ax else x


def keptref(case, v, x):
  keep = [d for d in v['dims'] if d not in case['reduce']]
  full = ptgen.ref(case, v, np.zeros([len(ptgen.common(case, v)[d]) for d in v['dims']]))
  return xr.DataArray(x, dims=keep, coords={d: full[d] for d in keep})


@test('P17', cases(), quick=700)
def variance_and_unbiased_mse(case, ctx):
  p, t = make(case)
  nt(case, ctx, p)
  ens = case['ens_dim']
  kw = dict(ensemble_dim=ens, skipna_ensemble=case['skipna'])
  o1 = prob.EnsembleVariance(**kw).compute(p, t)
  o2 = prob.UnbiasedEnsembleMeanSquaredError(**kw).compute(p, t)
  o2p = prob.UnbiasedEnsembleMeanSquaredError(**kw).compute({k: v.isel({ens: case['mperm']}) for k, v in p.items()}, t)
  names = {v['name'] for v in case['vars']}
  check(set(o1) == names == set(o2), f'variables {set(o1)} {set(o2)}')
  for v in case['vars']:
    n = v['name']
    x = p[n]
    _, var, _ = mv(x.transpose(*v['dims'], ens).values.astype(float), case['skipna'])
    same_da(o1[n], xr.DataArray(var, dims=v['dims'], coords={d: x[d] for d in v['dims']}), f'variance[{n}]', sort=True, **tolerance(case, v))
    P, T = arrays(case, v, p, t)
    pm, pv, pn = mv(P, case['skipna'])
    if case['N']:
      tm, tv, tn = mv(T, case['skipna'])
      tb = tv / np.where(tn == 0, np.nan, tn)
    else:
      tm, tb = T[..., 0], 0.0
    e = (pm - tm) ** 2 - pv / np.where(pn == 0, np.nan, pn) - tb
    same_da(o2[n], ptgen.ref(case, v, e), f'unbiased MSE[{n}]', sort=True, **tolerance(case, v))
    same_da(o2p[n], ptgen.ref(case, v, e), f'unbiased MSE[{n}], members reordered', sort=True, **tolerance(case, v))
  if not case['N']:
    expect_raises(lambda: prob.UnbiasedEnsembleMeanSquaredError(**kw).compute(
        {k: v.isel({ens: 0}, drop=True) for k, v in p.items()}, t), ValueError, 'unbiased MSE without ensemble')


@test('P17', cases(labels=False), quick=500)
def spread_skill_metrics(case, ctx):
  p, t = make(case)
  nt(case, ctx, p)
  ens = case['ens_dim']
  kw = dict(ensemble_dim=ens, skipna_ensemble=case['skipna'])
  red = case['reduce']
  outs = {k: metric(case, m(**kw), p, t, red) for k, m in [('rmse', prob.UnbiasedEnsembleMeanRMSE), ('ssr', prob.UnbiasedSpreadSkillRatio),
                                                          ('rmv', prob.EnsembleRootMeanVariance)]}
  for v in case['vars']:
    n = v['name']
    if not set(red) <= set(v['dims']):
      for k in outs:
        check(n not in outs[k], f'{k}: {n} lacks a reduced dimension')
      continue
    P, T = arrays(case, v, p, t)
    pm, pv, pn = mv(P, case['skipna'])
    tm, tb = T[..., 0], 0.0
    if case['N']:
      tm, tv, tn = mv(T, case['skipna'])
      tb = tv / np.where(tn == 0, np.nan, tn)
    mse = avg(case, v, (pm - tm) ** 2 - pv / np.where(pn == 0, np.nan, pn) - tb)
    var = avg(case, v, pv)
    scale = 1 + np.nanmax(np.abs(np.concatenate([P.ravel(), T.ravel(), [0.0]]))) ** 2
    ill = np.abs(mse) < (1e-3 if 'float32' in (v['p']['dtype'], v['t']['dtype']) else 1e-6) * scale
    with np.errstate(all='ignore'):
      e = {'rmse': np.sqrt(mse), 'ssr': np.sqrt(var / mse), 'rmv': np.sqrt(var)}
    illda = keptref(case, v, ill)
    for k in e:
      if n not in outs[k]:
        fail(f'{k}: no value for {n}')
      g, x = outs[k][n], keptref(case, v, e[k])
      tol = tolerance(case, v)
      tol = dict(rtol=max(tol['rtol'], 1e-7) * 10, atol=max(tol['atol'], 1e-7) * 10)
      if k != 'rmv':
        g, x = g.where(~illda), x.where(~illda)
      else:
        tol['atol'] = max(tol['atol'], 3e-3 if 'float32' in (v['p']['dtype'], v['t']['dtype']) else 1e-6)
      same_da(g, x, f'{k}[{n}]', sort=True, **tol)


@test('P17', cases(tens=False), quick=500)
def ensemble_mean_and_member_average(case, ctx):
  p, t = make(case)
  nt(case, ctx, p)
  ens, red = case['ens_dim'], case['reduce']
  if case['tlabels']:
    red = case['reduce'] = []
  wm = wrappers.WrappedMetric(det.RMSE(), [wrappers.EnsembleMean('predictions', ensemble_dim=ens, skipna=case['skipna'])])
  am = prob.EnsembleAveragedMetric(det.RMSE(), ensemble_dim=ens, skipna_ensemble=case['skipna'])
  ab = prob.EnsembleAveragedMetric(det.MAE(), ensemble_dim=ens, skipna_ensemble=case['skipna'])
  o1, o2, o3 = metric(case, wm, p, t, red), metric(case, am, p, t, red), metric(case, ab, p, t, red)
  for v in case['vars']:
    n = v['name']
    if not set(red) <= set(v['dims']):
      continue
    P, T = arrays(case, v, p, t)
    if P.size == 0:
      continue
    pm, _, _ = mv(P, case['skipna'])
    se, _, _ = mv((P - T) ** 2, case['skipna'])
    ae, _, _ = mv(np.abs(P - T), case['skipna'])
    tol = tolerance(case, v)
    tol = dict(rtol=tol['rtol'] * 10, atol=max(tol['atol'], 1e-7) * 10)
    same_da(o1[n], keptref(case, v, np.sqrt(avg(case, v, (pm - T[..., 0]) ** 2))), f'RMSE of the ensemble mean[{n}]', sort=True, **tol)
    same_da(o2[n], keptref(case, v, np.sqrt(avg(case, v, se))), f'member-averaged RMSE[{n}]', sort=True, **tol)
    same_da(o3[n], keptref(case, v, avg(case, v, ae)), f'member-averaged MAE[{n}]', sort=True, **tol)
  expect_raises(lambda: metric(case, ab, {k: v.isel({ens: 0}, drop=True) for k, v in p.items()}, t, []), ValueError,
                'member average without ensemble dimension')


@test('P17', cases(tens=False), quick=700)
def rank_histogram(case, ctx):
  p, t = make(case)
  if case['perfect'] and not case['tlabels']:
    t = {k: (p[k].isel({case['ens_dim']: 0}, drop=True) if k in p else v) for k, v in t.items()}
  nt(case, ctx, p)
  ens, M = case['ens_dim'], case['members']
  stat = prob.RankHistogram(ensemble_dim=ens)
  out = stat.compute(p, t)
  outp = stat.compute({k: v.isel({ens: case['mperm']}) for k, v in p.items()}, t)
  for v in case['vars']:
    n = v['name']
    P, T = arrays(case, v, p, t)
    e = np.full(P.shape[:-1] + (M + 1,), np.nan)
    tie = False
    for i in np.ndindex(*P.shape[:-1]):
      if np.isnan(P[i]).any() or np.isnan(T[i]).any():
        continue
      rank = sum(1 for a in P[i] if a < T[i][0])
      tie |= bool((P[i] == T[i][0]).any())
      e[i] = 0
      e[i][rank] = 1
    ctx.label(f'ties={tie}', f'missing={bool(np.isnan(e).any())}')
    r = ptgen.ref(case, v, e, ['rank'], {'rank': np.arange(M + 1)})
    same_da(out[n], r, f'rank histogram[{n}]', sort=True)
    same_da(outp[n], r, f'rank histogram[{n}], members reordered', sort=True)
  # Aggregated histograms sum to one.
  if not case['tlabels']:
    o = metric(case, stat, p, t, case['reduce'])
    for n, g in o.items():
      s = g.sum('rank', skipna=False)
      check(bool(((abs(s - 1) < 1e-5) | s.isnull()).all()), f'rank histogram[{n}] sums to {s.values}')


@st.composite
def exceed(draw):
  c = draw(cases(tens=False))
  c['thr'] = sorted(draw(st.lists(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0]), min_size=1, max_size=3, unique=True)))
  for v in c['vars']:
    v['p']['dtype'] = v['t']['dtype'] = 'float64'
  return c


@test('P17', exceed(), quick=400)
def ensemble_error_exceedance(case, ctx):
  p, t = make(case)
  nt(case, ctx, p)
  ens = case['ens_dim']
  out = prob.EnsembleErrorExceedance(list(case['thr']), ensemble_dim=ens).compute(p, t)
  for v in case['vars']:
    P, T = arrays(case, v, p, t)
    d = np.abs(P - T)
    e = np.stack([np.where(np.isnan(d), np.nan, d > h).mean(-1) for h in case['thr']], -1)
    dim = 'error_exceedance_thresholds'
    same_da(out[v['name']], ptgen.ref(case, v, e, [dim], {dim: np.array(case['thr'])}), f"exceedance[{v['name']}]", sort=True)


# ------------------------------------------------------------ relative economic value

@st.composite
def rev_cases(draw):
  c = draw(ptgen.pairs(kinds=('prob', 'unif', 'binary'), target_kinds=('binary', 'mostly0', 'mostly1'), labels=False, nan=(0.0, 0.0, 0.15),
                       dtype=('float64',), dims=['init_time', 'lead_time', 'latitude']))
  c['mode'] = draw(st.sampled_from(['size', 'thr']))
  c['size'] = draw(st.integers(1, 8))
  c['thr'] = sorted(draw(st.lists(st.sampled_from([0.125, 0.2, 0.25, 0.5, 0.625, 0.9]), min_size=1, max_size=4, unique=True)))
  c['cl'] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.05, 0.1, 0.3, 0.5, 0.7, 0.95]), min_size=1, max_size=4, unique=True)))
  c['opt'] = draw(st.sampled_from([None, None, 'da', 'map', 'dims']))
  c['nearest'] = draw(st.booleans())
  c['oseed'] = draw(gen.seeds)
  c['reduce'] = [d for d in c['sizes'] if draw(st.integers(0, 3)) > 0]
  return c


@test('P17', rev_cases(), quick=600)
def relative_economic_value(case, ctx):
  p, t = ptgen.make(case)
  M = case['size']
  if case['mode'] == 'size':
    thr = (np.arange(M) + 0.5) / M
    kw = dict(ensemble_size=M)
    p = {k: (v * M).round() / M for k, v in p.items()}
  else:
    thr = np.array(case['thr'])
    kw = dict(probability_thresholds=thr, statistic_suffix='thr')
  cl = np.geomspace(0.005, 1, 51)[:-1] if case['cl'] is None else np.array(sorted(case['cl']))
  if case['cl'] is not None:
    kw['cost_loss_ratios'] = cl
  allthr = np.concatenate([[0.0], thr, [1.0]])
  r = gen.rng(case['oseed'])
  red = case['reduce']
  opt = None
  v0 = case['vars'][0]
  keep0 = [d for d in v0['dims'] if d not in red]
  if case['opt'] == 'dims' and (not keep0 or any(keep0[0] not in v['dims'] for v in case['vars'])):
    case['opt'] = 'da'
  def pick(shape):
    i = r.integers(0, len(allthr), size=shape)
    x = allthr[i]
    return (np.clip(x + r.uniform(-0.03, 0.03, size=shape), 0, 1) if case['nearest'] else x)
  if case['opt'] == 'da':
    opt = xr.DataArray(pick(len(cl)), dims=['cost_loss_ratio'], coords={'cost_loss_ratio': cl})
    om = {v['name']: opt for v in case['vars']}
  elif case['opt'] == 'map':
    om = {v['name']: xr.DataArray(pick(len(cl)), dims=['cost_loss_ratio'], coords={'cost_loss_ratio': cl}) for v in case['vars']}
    opt = om
  elif case['opt'] == 'dims':
    d = keep0[0]
    opt = xr.DataArray(pick((case['sizes'][d], len(cl))), dims=[d, 'cost_loss_ratio'],
                       coords={'cost_loss_ratio': cl, d: p[v0['name']][d]})
    om = {v['name']: opt for v in case['vars']}
  m = prob.RelativeEconomicValue(optimal_thresholds=opt, optimal_thresholds_select_nearest=case['nearest'], **kw)
  out = metric(case, m, p, t, red)
  ctx.label(f"mode={case['mode']}", f"opt={case['opt']}", f"nearest={case['nearest']}", f"clr={case['cl'] is None}")
  for v in case['vars']:
    n = v['name']
    if not set(red) <= set(v['dims']):
      continue
    P, T, _ = ptgen.aligned(case, v, p[n], t[n])
    miss = np.isnan(P) | np.isnan(T)
    ctx.nt(bool((T == 1).any() and (T == 0).any()))
    f = lambda x: avg(case, v, np.where(miss, np.nan, x * 1.0))
    ev, none = T == 1, np.zeros(T.shape, bool)
    cells = []
    for h in allthr:
      act = ~none if h == 0.0 else (none if h == 1.0 else P > h)
      cells.append((f(act), f(~act & ev), f(ev)))
    keep = [d for d in v['dims'] if d not in red]
    kshape = np.asarray(cells[0][0]).shape
    E = np.full(kshape + (len(allthr), len(cl)), np.nan)
    den = np.zeros(E.shape)
    for j, (act, misses, evn) in enumerate(cells):
      for k, c in enumerate(cl):
        cost = c * act + misses
        perf = c * evn
        clim = np.minimum(c, evn)
        with np.errstate(all='ignore'):
          E[..., j, k] = (clim - cost) / (clim - perf)
        den[..., j, k] = clim - perf
    if opt is None:
      ill = np.abs(den) < 1e-5
      exp = xr.DataArray(np.where(ill, np.nan, E), dims=keep + ['threshold', 'cost_loss_ratio'],
                         coords={d: p[n][d] for d in keep} | {'threshold': allthr, 'cost_loss_ratio': cl})
      il = exp.copy(data=ill)
      same_da(out[n].where(~il), exp, f'REV[{n}]', rtol=2e-3, atol=2e-3, sort=True)
    else:
      o = om[n]
      res = np.full(kshape + (len(cl),), np.nan)
      amb = np.zeros(res.shape, bool)
      for i in np.ndindex(*kshape):
        for k in range(len(cl)):
          q = o.isel(cost_loss_ratio=k)
          if case['opt'] == 'dims':
            q = q.isel({keep0[0]: i[keep.index(keep0[0])]})
          dist = np.abs(allthr - float(q))
          j = int(dist.argmin())
          amb[i + (k,)] = np.abs(den[i + (j, k)]) < 1e-5 or np.sum(np.abs(dist - dist[j]) < 1e-9) > 1
          res[i + (k,)] = E[i + (j, k)]
      exp = xr.DataArray(np.where(amb, np.nan, res), dims=keep + ['cost_loss_ratio'], coords={d: p[n][d] for d in keep} | {'cost_loss_ratio': cl})
      il = exp.copy(data=amb)
      check('threshold' not in out[n].dims, 'threshold dimension kept')
      same_da(out[n].where(~il), exp, f'REV at optimal thresholds[{n}]', rtol=2e-3, atol=2e-3, sort=True)
