"""P14: categorical scores follow from the contingency table."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, ptgen
from wbxv.aggref import TableWeighting
from wbxv.cmp import check, fail, same_da, same_np
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical as cat

RULE = ('binary forecasts/observations (balanced, rare, all-0, all-1; bool/int/float with NaN), 1-3 variables, '
        'label-shuffled targets, weighted/unweighted averaging with and without skipping missing pairs; '
        'non-trivial = at least two of the four table entries are non-zero somewhere')
ASSUMPTIONS = ['an undefined ratio (zero denominator) may be reported as NaN or infinity',
               'forecasts and observations are 0/1, boolean or missing']
KINDS = ('binary', 'binary', 'mostly0', 'mostly1', 'zero')
STATS = {'TruePositives': lambda p, t: (p == 1) & (t == 1), 'TrueNegatives': lambda p, t: (p == 0) & (t == 0),
         'FalsePositives': lambda p, t: (p == 1) & (t == 0), 'FalseNegatives': lambda p, t: (p == 0) & (t == 1)}


def div(a, b):
  with np.errstate(all='ignore'):
    return np.where(b == 0, np.nan, a / np.where(b == 0, 1, b))


def sedi(a, b, c, d):
  H, F = div(a, a + c), div(b, b + d)
  H, F = np.clip(H, 1e-6, 1 - 1e-6), np.clip(F, 1e-6, 1 - 1e-6)
  l = np.log
  return (l(F) - l(H) - l(1 - F) + l(1 - H)) / (l(F) + l(H) + l(1 - F) + l(1 - H))


def hss(a, b, c, d):
  # Heidke: (correct - expected correct) / (n - expected correct)
  n = a + b + c + d
  e = ((a + c) * (a + b) + (b + d) * (c + d)) / n
  return div(a + d - e, n - e)


def ets(a, b, c, d):
  ar = (a + b) * (a + c) / (a + b + c + d)
  return div(a - ar, a - ar + b + c)


# a = hits, b = false alarms, c = misses, d = correct negatives
SCORES = {
    'CSI': lambda a, b, c, d: div(a, a + b + c),
    'Accuracy': lambda a, b, c, d: (a + d) / (a + b + c + d),
    'Recall': lambda a, b, c, d: div(a, a + c),
    'FalseAlarmRate': lambda a, b, c, d: div(b, a + b),
    'Precision': lambda a, b, c, d: div(a, a + b),
    'F1Score': lambda a, b, c, d: div(2 * a, 2 * a + b + c),
    'FrequencyBias': lambda a, b, c, d: div(a + b, a + c),
    'HSS': hss, 'ETS': ets, 'SEDI': sedi,
}


@st.composite
def cases(draw, labels=True):
  c = draw(ptgen.pairs(kinds=KINDS, nan=(0.0, 0.0, 0.2, 0.5), labels=labels, dtype=('float64', 'float32')))
  c['as'] = draw(st.sampled_from(['float', 'bool', 'int', 'mixed']))
  c['reduce'] = [d for d in c['sizes'] if draw(st.booleans())]
  c['skipna'] = draw(st.booleans())
  c['w'] = draw(st.one_of(st.none(), gen.seeds))
  return c


def data(case):
  if case['as'] in ('bool', 'int', 'mixed'):
    case = dict(case, vars=[dict(v, p=dict(v['p'], nan=0.0), t=dict(v['t'], nan=v['t']['nan'] if case['as'] == 'mixed' else 0.0))
                            for v in case['vars']])
  p, t = ptgen.make(case)
  conv = {'bool': bool, 'int': 'int64', 'mixed': bool}.get(case['as'])
  if conv:
    p = {k: v.astype(conv) for k, v in p.items()}
    if case['as'] != 'mixed':
      t = {k: v.astype(conv) for k, v in t.items()}
  return p, t


@test('P14', cases(), quick=600)
def indicators_partition_valid_pairs(case, ctx):
  p, t = data(case)
  ctx.label('as=' + case['as'], f"labels={'shuffled' if case['tlabels'] else 'equal'}")
  outs = {}
  for name, f in STATS.items():
    out = getattr(cat, name)().compute(p, t)
    check(set(out) == {v['name'] for v in case['vars']}, lambda: f'{name}: variables {set(out)}')
    outs[name] = out
  for v in case['vars']:
    P, T, _ = ptgen.aligned(case, v, p[v['name']], t[v['name']])
    miss = np.isnan(P) | np.isnan(T)
    k = 0
    tot = 0
    for name, f in STATS.items():
      e = np.where(miss, np.nan, f(P, T) * 1.0)
      k += int(np.nansum(e) > 0)
      tot = tot + outs[name][v['name']]
      same_da(outs[name][v['name']], ptgen.ref(case, v, e), f"{name}[{v['name']}]", sort=True)
    same_da(tot, ptgen.ref(case, v, np.where(miss, np.nan, 1.0)), 'sum of the four indicators', sort=True)
    ctx.nt(k >= 2)
    ctx.label(f'missing={bool(miss.any())}')


def table(case, p, t):
  """Brute-force weighted mean table per variable -> dict var -> (a,b,c,d, dims, coords)."""
  res = {}
  red = case['reduce']
  for v in case['vars']:
    if not set(red) <= set(v['dims']):
      continue
    P, T, coords = ptgen.aligned(case, v, p[v['name']], t[v['name']])
    if P.size == 0:
      continue
    miss = np.isnan(P) | np.isnan(T)
    ax = tuple(v['dims'].index(d) for d in red)
    W = np.ones(P.shape)
    if case['w'] is not None and red:
      d = red[0]
      w = weight_table(case, d)
      shp = [1] * P.ndim
      shp[v['dims'].index(d)] = P.shape[v['dims'].index(d)]
      W = W * w.sel({d: coords[d]}).values.reshape(shp)
    ent = []
    for name in ('TruePositives', 'FalsePositives', 'FalseNegatives', 'TrueNegatives'):
      x = STATS[name](P, T) * 1.0
      if case['skipna']:
        den = (W * ~miss).sum(axis=ax)
        num = (W * ~miss * x).sum(axis=ax)
      else:
        den = W.sum(axis=ax)
        num = (W * np.where(miss, np.nan, x)).sum(axis=ax)
      ent.append(div(num, den))
    keep = [d for d in v['dims'] if d not in red]
    res[v['name']] = (*ent, keep, {d: coords[d] for d in keep})
  return res


def weight_table(case, d):
  lab = ptgen.full_labels(case, d)
  return xr.DataArray(gen.rng(case['w']).integers(1, 5, size=len(lab)).astype(float), dims=[d], coords={d: lab})


def evaluate(case, p, t, metrics):
  ws = [TableWeighting(weight_table(case, case['reduce'][0]))] if case['w'] is not None and case['reduce'] else None
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], weigh_by=ws, skipna=case['skipna'])
  stats = base.compute_unique_statistics_for_all_metrics(metrics, p, t)
  state = agg.aggregate_statistics(stats)
  means = {s: dict(state.mean_statistics()[s]) for s in state.mean_statistics()}
  return base.compute_metrics_from_statistics(metrics, means)


def compare(got, tab, name, what):
  a, b, c, d, keep, coords = tab
  e = xr.DataArray(SCORES[name](a, b, c, d), dims=keep, coords=coords)
  got = got.where(np.isfinite(got))  # undefined (x/0) is not a number either way
  # Ill-conditioned denominators: exact 0/0 may come out as rounding noise in float32.
  n = a + b + c + d
  if name in ('HSS', 'ETS'):
    ex = ((a + c) * (a + b) + (b + d) * (c + d)) / n if name == 'HSS' else (a + b) * (a + c) / n
    den = n - ex if name == 'HSS' else a - ex + b + c
    bad = np.abs(np.nan_to_num(den, nan=1.0)) < 1e-5
    bad = xr.DataArray(bad, dims=keep, coords=coords)
    ga = got.transpose(*keep)
    for dd in keep:
      ga, bad, e = ga.sortby(dd), bad.sortby(dd), e.sortby(dd)
    got, e = ga.where(~bad), e.where(~bad)
  tol = dict(rtol=2e-4, atol=2e-5)
  if name == 'SEDI':
    tol = dict(rtol=1e-2, atol=1e-2)
    with np.errstate(all='ignore'):
      H, F = div(a, a + c), div(b, b + d)
      if not (np.any(H == 0) or np.any(H == 1) or np.any(F == 0) or np.any(F == 1)):
        tol = dict(rtol=1e-3, atol=1e-3)
  same_da(got, e, what, sort=True, **tol)


@test('P14', cases(), quick=420)
def scores_equal_textbook(case, ctx):
  p, t = data(case)
  tab = table(case, p, t)
  metrics = {k: getattr(cat, k)() for k in SCORES}
  out = evaluate(case, p, t, metrics)
  ctx.label('as=' + case['as'], f"skipna={case['skipna']}", f"weights={case['w'] is not None}", f"reduce={len(case['reduce'])}")
  for n, tb in tab.items():
    ent = [np.nansum(x) for x in tb[:4]]
    ctx.nt(sum(x > 0 for x in ent) >= 2)
    for m in SCORES:
      check(n in out[m], lambda: f'{m}: no value for {n}')
      compare(out[m][n], tb, m, f'{m}.{n}')


@test('P14', cases(labels=False), quick=120)
def swap_and_complement(case, ctx):
  """Exchanging / complementing the inputs permutes the table and the scores accordingly."""
  case = dict(case, extra='', vars=[dict(v, tdims=v['dims']) for v in case['vars']])
  p, t = data(case)
  metrics = {k: getattr(cat, k)() for k in SCORES}
  o1 = evaluate(case, p, t, metrics)
  neg = lambda x: {k: (~v if v.dtype == bool else 1 - v) for k, v in x.items()}
  o2 = evaluate(case, t, p, metrics)
  o3 = evaluate(case, neg(p), neg(t), metrics)
  tab = table(case, p, t)
  for n, (a, b, c, d, keep, coords) in tab.items():
    ctx.nt(sum(np.nansum(x) > 0 for x in (a, b, c, d)) >= 2)
    tol = dict(rtol=1e-3, atol=1e-4, coords=None)
    for m in ('CSI', 'Accuracy', 'F1Score'):
      same_da(o2[m][n], o1[m][n], f'swapped {m}', **tol)
    same_da(o2['Precision'][n], o1['Recall'][n], 'precision of swapped = recall', **tol)
    same_da(o2['Recall'][n], o1['Precision'][n], 'recall of swapped = precision', **tol)
    same_da(o3['Accuracy'][n], o1['Accuracy'][n], 'complemented accuracy', **tol)
    same_da(1 - o1['Precision'][n], o1['FalseAlarmRate'][n], 'FAR = 1 - precision', **tol)
    for m in SCORES:
      compare(o2[m][n], (a, c, b, d, keep, coords), m, f'swapped {m}.{n}')
      compare(o3[m][n], (d, c, b, a, keep, coords), m, f'complemented {m}.{n}')
