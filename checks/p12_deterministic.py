"""P12: deterministic scores equal their formulas on label-matched pairs."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import gen, ptgen
from wbxv.cmp import check, fail, same_da, same_np, expect_raises
from wbxv.core import test
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, deterministic as det

RULE = ('1-3 variables with own dims (1-4 of 5, any order, targets permuted), NaNs, float64/32, targets with '
        'permuted or partly overlapping labels, unmatched variables; non-trivial = several variables, NaNs, or '
        'labels not in the same order')
ASSUMPTIONS = ['predictions and targets are paired on the labels they share (xarray inner join)']


def classify(c, ctx):
  ctx.nt(len(c['vars']) > 1 or bool(c['tlabels']) or any(v['p']['nan'] or v['t']['nan'] for v in c['vars']))
  ctx.label(f"labels={'shuffled' if c['tlabels'] else 'equal'}", f"vars={len(c['vars'])}",
            f"nan={any(v['p']['nan'] or v['t']['nan'] for v in c['vars'])}", f"extra={c['extra']}")


def names_ok(c, out, what):
  exp = {v['name'] for v in c['vars']}
  check(set(out) == exp, lambda: f'{what}: variables {set(out)} vs expected {exp}')


FORMULAS = {
    'Error': (det.Error, lambda p, t: p - t),
    'AbsoluteError': (det.AbsoluteError, lambda p, t: np.abs(p - t)),
    'SquaredError': (det.SquaredError, lambda p, t: (p - t) ** 2),
    'PredictionPassthrough': (det.PredictionPassthrough, lambda p, t: p),
    'PredictionPassthroughNaN': (lambda: det.PredictionPassthrough(copy_nans_from_targets=True),
                                 lambda p, t: np.where(np.isnan(t), np.nan, p)),
    'TargetPassthrough': (det.TargetPassthrough, lambda p, t: t),
    'TargetPassthroughNaN': (lambda: det.TargetPassthrough(copy_nans_from_predictions=True),
                             lambda p, t: np.where(np.isnan(p), np.nan, t)),
}
ALIASES = {'Bias': 'Error', 'MAE': 'AbsoluteError', 'MSE': 'SquaredError',
           'PredictionAverage': 'PredictionPassthrough', 'TargetAverage': 'TargetPassthrough'}


@test('P12', ptgen.pairs(), quick=900)
def statistics_pointwise(case, ctx):
  classify(case, ctx)
  p, t = ptgen.make(case)
  for name, (mk, f) in FORMULAS.items():
    out = mk().compute(p, t)
    names_ok(case, out, name)
    for v in case['vars']:
      P, T, _ = ptgen.aligned(case, v, p[v['name']], t[v['name']])
      same_da(out[v['name']], ptgen.ref(case, v, f(P, T)), f"{name}[{v['name']}]", sort=True, **ptgen.tol(v))


@st.composite
def metric_cases(draw):
  c = draw(ptgen.pairs())
  c['reduce'] = [d for d in c['sizes'] if draw(st.booleans())]
  c['ds'] = draw(st.booleans())
  return c


@test('P12', metric_cases(), quick=450)
def metric_values(case, ctx):
  classify(case, ctx)
  p, t = ptgen.make(case)
  metrics = {k: getattr(det, k)() for k in ALIASES} | {'RMSE': det.RMSE()}
  red = case['reduce']
  agg = aggregation.Aggregator(reduce_dims=red)
  stats = base.compute_unique_statistics_for_all_metrics(metrics, p, t)
  out = agg.aggregate_statistics(stats).metric_values(metrics)
  seen = set()
  for v in case['vars']:
    P, T, _ = ptgen.aligned(case, v, p[v['name']], t[v['name']])
    if not set(red) <= set(v['dims']) or P.size == 0:
      # A variable lacking a reduced dim is left out (P02).
      seen |= {f"{m}.{v['name']}" for m in metrics} if P.size == 0 and set(red) <= set(v['dims']) else set()
      continue
    ax = [v['dims'].index(d) for d in red]
    for m in metrics:
      key = f"{m}.{v['name']}"
      seen.add(key)
      if m == 'RMSE':
        val = np.sqrt(ptgen.npmean((P - T) ** 2, ax))
      else:
        val = ptgen.npmean(FORMULAS[ALIASES[m]][1](P, T), ax)
      e = xr.DataArray(val, dims=[d for d in v['dims'] if d not in red])
      check(key in out, lambda: f'{key} missing from {list(out)}')
      got = out[key]
      for d in got.dims:  # variables may have different labels along a dim: outer-aligned
        if d in e.dims and got.sizes[d] != e.sizes[d]:
          fail(f'{key}: size along {d}: {got.sizes[d]} vs {e.sizes[d]}')
      full = ptgen.ref(case, v, np.zeros(P.shape))
      e = e.assign_coords({d: full[d] for d in e.dims})
      same_da(got, e, key, sort=True, **ptgen.tol(v))
  check(set(out) == seen, lambda: f'metric names {set(out)} vs expected {seen}')


@st.composite
def exceed_cases(draw):
  c = draw(ptgen.pairs(kinds=('int', 'normal')))
  n = draw(st.integers(1, 4))
  c['thr'] = [draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 2.5, 4.0])) for _ in range(n)]
  c['thr'] = sorted(set(c['thr']))
  c['form'] = draw(st.sampled_from(['list', 'array', 'field', 'dataset']))
  c['tseed'] = draw(gen.seeds)
  c['tnan'] = draw(st.sampled_from([0.0, 0.3]))
  return c


@test('P12', exceed_cases(), quick=900)
def error_exceedance(case, ctx):
  classify(case, ctx)
  p, t = ptgen.make(case)
  form, thr = case['form'], case['thr']
  ctx.label('form=' + form)
  r = gen.rng(case['tseed'])
  d0 = case['vars'][0]['dims'][0]
  lab = ptgen.full_labels(case, d0)
  def field(k):
    x = r.integers(0, 4, size=(len(lab), len(thr))) * 0.5
    x = np.where(r.uniform(size=x.shape) < case['tnan'], np.nan, x)
    return xr.DataArray(x, dims=[d0, 'q'], coords={d0: lab, 'q': np.arange(len(thr))}, name=k)
  if form == 'list':
    stat = det.ErrorExceedance(list(thr))
    dim, dimlab = 'error_exceedance_thresholds', np.array(thr)
  elif form == 'array':
    stat = det.ErrorExceedance(xr.DataArray(thr, dims='q', coords={'q': np.arange(len(thr))}))
    dim, dimlab = 'q', np.arange(len(thr))
  elif form == 'field':
    f = field('thr')
    stat = det.ErrorExceedance(f)
    F = {v['name']: f for v in case['vars']}
    dim, dimlab = 'q', np.arange(len(thr))
  else:
    F = {v['name']: field(v['name']) for v in case['vars']}
    stat = det.ErrorExceedance(xr.Dataset(F))
    dim, dimlab = 'q', np.arange(len(thr))
  out = stat.compute(p, t)
  names_ok(case, out, 'ErrorExceedance')
  for v in case['vars']:
    P, T, coords = ptgen.aligned(case, v, p[v['name']], t[v['name']])
    if form in ('field', 'dataset') and d0 not in v['dims']:
      continue
    e = np.abs(P - T)[..., None]
    if form in ('field', 'dataset'):
      cm = ptgen.common(case, v)[d0]
      th = F[v['name']].transpose(d0, 'q').values[cm]
      shp = [1] * len(v['dims']) + [len(thr)]
      shp[v['dims'].index(d0)] = len(cm)
      th = th.reshape(shp)
    else:
      th = np.array(thr).reshape([1] * len(v['dims']) + [len(thr)])
    if v['p']['dtype'] == 'float32' or v['t']['dtype'] == 'float32':
      # Values at the threshold may round either way in mixed precision.
      if np.any(np.abs(e - th) < 1e-5) and not (v['p']['kind'] == v['t']['kind'] == 'int'):
        continue
    x = np.where(np.isnan(e) | np.isnan(th), np.nan, (e > th) * 1.0)
    same_da(out[v['name']], ptgen.ref(case, v, x, [dim], {dim: dimlab}), f"ErrorExceedance[{v['name']}]", sort=True)


@st.composite
def intensity_cases(draw):
  c = draw(ptgen.pairs(kinds=('posint', 'unif', 'zero'), required=('latitude', 'longitude'), labels=False,
                       dtype=('float64',)))
  c['sd'] = draw(st.sampled_from([['latitude', 'longitude'], ['longitude'], ['latitude'], ['longitude', 'latitude']]))
  c['default'] = draw(st.booleans()) and c['sd'] == ['latitude', 'longitude']
  c['mask'] = draw(st.sampled_from([None, 'sp', 'full']))
  c['mfrac'] = draw(st.sampled_from([0.0, 0.3, 0.7, 1.0]))
  c['mseed'] = draw(gen.seeds)
  c['mtype'] = draw(st.sampled_from(['bool', 'int', 'float']))
  return c


@test('P12', intensity_cases(), quick=900)
def relative_intensity(case, ctx):
  classify(case, ctx)
  ctx.label(f"mask={case['mask']}", 'sd=' + '+'.join(case['sd']))
  p, t = ptgen.make(case)
  masks = {}
  for i, v in enumerate(case['vars']):
    n = v['name']
    if case['mask']:
      md = v['tdims'] if case['mask'] == 'full' else ['latitude', 'longitude']
      m = gen.rng([case['mseed'], i]).uniform(size=[case['sizes'][d] for d in md]) >= case['mfrac']
      m = xr.DataArray(m.astype(case['mtype']), dims=md, coords={d: t[n][d] for d in md})
      t[n] = t[n].assign_coords(mask=m)
      masks[n] = m
  stat = det.RelativeIntensity() if case['default'] else det.RelativeIntensity(case['sd'])
  out = stat.compute(p, t)
  names_ok(case, out, 'RelativeIntensity')
  eps = 1e-6
  for v in case['vars']:
    n = v['name']
    P, T, _ = ptgen.aligned(case, v, p[n], t[n])
    ax = tuple(v['dims'].index(d) for d in case['sd'])
    keep = [d for d in v['dims'] if d not in case['sd']]
    if case['mask']:
      M = masks[n].astype(bool)
      M = M.broadcast_like(ptgen.ref(case, v, np.zeros(P.shape))).transpose(*v['dims']).values
      cnt = M.sum(axis=ax)
      with np.errstate(all='ignore'):
        pm = np.where(cnt > 0, np.where(M, P, 0).sum(axis=ax) / cnt, 0.0)
        tm = np.where(cnt > 0, np.where(M, T, 0).sum(axis=ax) / cnt, 0.0)
    else:
      pm, tm = P.mean(axis=ax), T.mean(axis=ax)
    e = np.abs((pm + eps) / (tm + eps) - 1)
    e = xr.DataArray(e, dims=keep)
    same_da(out[n], e, f'RelativeIntensity[{n}]', coords=None, rtol=1e-7, atol=1e-9)
    if case['mask']:
      check('mask' in out[n].coords, 'RelativeIntensity: result has no mask')
      mm = out[n].mask.astype(bool)
      cn = xr.DataArray(cnt > 0, dims=keep)
      mb, cb = xr.broadcast(mm.drop_vars(list(mm.coords)), cn)
      check(bool((mb == cb).all()), f'RelativeIntensity: mask {mm.values} vs expected {cnt > 0}')


@st.composite
def wind_cases(draw):
  c = draw(ptgen.pairs(max_vars=1))
  n = draw(st.integers(1, 2))
  c['specs'] = [[draw(gen.array_spec(nan=(0.0, 0.2))) for _ in range(4)] for _ in range(n)]
  c['rev'] = draw(st.booleans())
  c['form'] = 'str' if n == 1 and draw(st.booleans()) else 'list'
  c['reduce'] = [d for d in c['vars'][0]['dims'] if draw(st.booleans())]
  return c


@test('P12', wind_cases(), quick=500)
def wind_vector(case, ctx):
  n = len(case['specs'])
  v = case['vars'][0]
  ctx.nt(n > 1 or bool(case['reduce']))
  ctx.label('form=' + case['form'], f'n={n}')
  p, t, ref = {}, {}, {}
  c0 = dict(case, extra='')
  for k, (pu, tu, pv, tv) in enumerate(case['specs']):
    cu = dict(c0, vars=[dict(v, p=pu, t=tu)])
    cv = dict(c0, vars=[dict(v, p=pv, t=tv)])
    (a, b), (c, d) = ptgen.make(cu), ptgen.make(cv)
    p[f'u{k}'], t[f'u{k}'], p[f'w{k}'], t[f'w{k}'] = a['v0'], b['v0'], c['v0'], d['v0']
    PU, TU, _ = ptgen.aligned(c0, v, a['v0'], b['v0'])
    PV, TV, _ = ptgen.aligned(c0, v, c['v0'], d['v0'])
    ref[f'wind{k}'] = (PU - TU) ** 2 + (PV - TV) ** 2
  p['other'] = p['u0']
  order = range(n)[::-1] if case['rev'] else range(n)
  un, vn, wn = [[f'{x}{k}' for k in order] for x in ('u', 'w', 'wind')]
  if case['form'] == 'str':
    m = det.WindVectorRMSE('u0', 'w0', 'wind0')
  else:
    m = det.WindVectorRMSE(un, vn, wn)
  se = det.WindVectorSquaredError(un, vn, wn).compute(p, t)
  check(set(se) == set(wn), f'vector names {set(se)}')
  for w in wn:
    same_da(se[w], ptgen.ref(c0, v, ref[w]), f'squared error {w}', sort=True, rtol=1e-7, atol=1e-7)
  agg = aggregation.Aggregator(reduce_dims=case['reduce'])
  out = aggregation.compute_metric_values_for_single_chunk({'m': m}, agg, p, t)
  ax = tuple(v['dims'].index(d) for d in case['reduce'])
  if ref['wind0'].size:
    for w in wn:
      val = np.sqrt(ref[w].mean(axis=ax) if ax else ref[w])
      e = ptgen.ref(c0, v, ref[w]).isel({d: 0 for d in case['reduce']}, drop=True).copy(data=val)
      same_da(out[f'm.{w}'], e, f'vector RMSE {w}', sort=True, rtol=1e-7, atol=1e-7)
  expect_raises(lambda: det.WindVectorRMSE(un + ['x'], vn, wn), ValueError, 'unequal numbers of components')
