"""P01: chunked aggregation, summed in any order and grouping, equals one-shot."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import aggref, gen
from wbxv.cmp import check, fail, same_da, same_nested
from wbxv.core import test
from weatherbenchX import aggregation, beam_utils, binning, time_chunks, weighting
from weatherbenchX.metrics import base, categorical, deterministic, probabilistic, wrappers

RULE = ('random statistics/forecast pairs split into random chunks, partial states merged in a random '
        'order and grouping with empty states interspersed; non-trivial = at least two chunks')
ASSUMPTIONS = ['chunks split initialization and lead time (area weights and spatial masks are per chunk)']


def fold(states, r):
  """Adds states leaf by leaf as the distributed pipeline does: accumulators fed in any grouping, then merged."""
  states = [s for s in states if s.sum_weights is not None]
  if not states:
    return aggregation.AggregationState.zero()
  trees = []
  for which in ('sum_weighted_statistics', 'sum_weights'):
    tree = {}
    for s, vs in getattr(states[0], which).items():
      for v in vs:
        c = beam_utils.CombiningSum()
        accs = [c.create_accumulator() for _ in range(int(r.integers(1, 4)))]
        for st_ in states:
          j = int(r.integers(0, len(accs)))
          accs[j] = c.add_input(accs[j], getattr(st_, which)[s][v])
        tree.setdefault(s, {})[v] = c.extract_output(c.merge_accumulators(accs))
      tree.setdefault(s, {})
    trees.append(tree)
  return aggregation.AggregationState(*trees)


def merge(parts, plan):
  """Merges states along a plan: list of (op, i) steps, ending with one state."""
  parts = list(parts)
  r = gen.rng(plan['seed'])
  order = r.permutation(len(parts))
  parts = [parts[i] for i in order]
  for _ in range(plan['zeros']):
    parts.insert(int(r.integers(0, len(parts) + 1)), aggregation.AggregationState.zero())
  while len(parts) > 1:
    how = r.integers(0, 5)
    if how == 0:
      k = int(r.integers(2, len(parts) + 1))
      i = int(r.integers(0, len(parts) - k + 1))
      parts[i:i + k] = [aggregation.AggregationState.sum(parts[i:i + k])]
    elif how == 1:
      i = int(r.integers(0, len(parts) - 1))
      parts[i:i + 2] = [parts[i] + parts[i + 1]]
    elif how == 2:
      i = int(r.integers(0, len(parts) - 1))
      parts[i:i + 2] = [parts[i + 1] + parts[i]]
    elif how == 3:
      i = int(r.integers(0, len(parts) - 1))
      parts[i:i + 2] = [fold(parts[i:i + 2], r)]
    else:
      parts[:] = [aggregation.AggregationState.sum(iter(parts))]
  return parts[0]


plans = st.fixed_dictionaries(dict(seed=gen.seeds, zeros=st.sampled_from([0, 1, 2])))


def split(draw, n):
  """Random partition of range(n) into chunks (not necessarily contiguous)."""
  mode = draw(st.sampled_from(['two', 'each', 'pairs', 'scattered', 'one']))
  if mode == 'two':
    k = draw(st.integers(1, max(1, n - 1)))
    return [c for c in (list(range(k)), list(range(k, n))) if c]
  if mode in ('each', 'pairs'):
    size = 1 if mode == 'each' else 2
    return [list(range(i, min(n, i + size))) for i in range(0, n, size)]
  if mode == 'one':
    return [list(range(n))]
  lab = draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n))
  return [[i for i in range(n) if lab[i] == j] for j in sorted(set(lab))]


@st.composite
def stat_cases(draw):
  c = draw(aggref.agg_cases(nan=(0.0, 0.1), masks=True, dtypes=('float64', 'float32', 'int64', 'bool')))
  for w in c['weights']:
    if isinstance(w, dict):
      w['dims'] = [d for d in w['dims'] if all(d in v['dims'] for v in c['vars'])]
  chunkable = [d for d in c['dims'] if d != 'latitude' or 'area' not in c['weights']]
  # A split dimension must be one that the data variables have.
  chunkable = [d for d in chunkable if d in c['vars'][0]['dims']]
  c['split'] = {d: split(draw, c['sizes'][d]) for d in chunkable if draw(st.sampled_from([True, True, False]))}
  c['plan'] = draw(plans)
  c['masked'] = draw(st.booleans())
  c['skipna'] = draw(st.booleans())
  c['shuffle'] = draw(st.booleans())
  return c


def tol_for(case, name):
  v = case['vars'][int(name[1:])]
  t = dict(float64=1e-9, float32=2e-4, int64=1e-9, bool=1e-5)[v['spec']['dtype']]
  return dict(rtol=t, atol=t * (1e4 if v['spec']['kind'] == 'wide' else 10))


def blocks(case):
  import itertools
  ds = list(case['split'])
  for combo in itertools.product(*[case['split'][d] for d in ds]):
    yield dict(zip(ds, combo))


@test('P01', stat_cases(), quick=1200)
def chunked_statistics(case, ctx):
  """Any partition of the data over any dimensions, kept or reduced."""
  stats = aggref.stat_arrays(case)
  # A variable without the split dimension would be counted once per chunk: it
  # is not part of a chunked evaluation over that dimension.
  stats = {k: v for k, v in stats.items() if all(d in v.dims for d in case['split'])}
  if not stats:
    return
  ws, bs = aggref.make_weighting_binning(case)
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], bin_by=bs, weigh_by=ws,
                               masked=case['masked'], skipna=case['skipna'])
  full = agg.aggregate_statistics({'s': stats})
  parts = [agg.aggregate_statistics({'s': {k: v.isel(b) for k, v in stats.items()}}) for b in blocks(case)]
  ctx.nt(len(parts) > 1 and bool(full.sum_weights['s']))
  kept_split = [d for d in case['split'] if d not in case['reduce']]
  ctx.label(f'chunks={min(len(parts), 8)}', f'kept_split={bool(kept_split)}', f"zeros={case['plan']['zeros']}",
            f"masked={case['masked']}")
  got = merge(parts, case['plan'])
  if got.sum_weights is None:
    fail('sum of partial states is empty')
  check(set(got.sum_weighted_statistics) == {'s'}, 'statistic names')
  ref = {k: aggref.reference3(case, v, case['masked'], case['skipna']) for k, v in stats.items()}
  ref = {k: v for k, v in ref.items() if v is not None}
  for which in ('sum_weighted_statistics', 'sum_weights'):
    g, f = getattr(got, which)['s'], getattr(full, which)['s']
    check(set(g) == set(f) == set(ref), f'{which}: variables {set(g)} vs {set(f)} vs {set(ref)}')
    for k in f:
      S = ref[k][0 if which == 'sum_weighted_statistics' else 1]
      a = g[k].transpose(*S.dims)
      if kept_split:
        a = a.sel({d: S[d] for d in kept_split})
      if which == 'sum_weighted_statistics':
        # see P03: NaN entering with coefficient 0 may or may not be evaluated.
        S = S.copy(data=np.where(ref[k][2].values & np.isnan(a.values), np.nan, S.values))
      same_da(a, S, f'{which}[{k}] over chunks', **tol_for(case, k))
      check(a.size == g[k].size, f'{which}[{k}]: extra entries')


@st.composite
def overlap_cases(draw):
  k = draw(st.integers(2, 4))
  nstat = draw(st.sampled_from([1, 2]))
  return dict(
      kinds=draw(st.sampled_from([['int', 'str'], ['int'], ['time', 'str']])),
      transpose=draw(st.booleans()), same=draw(st.booleans()),
      parts=[dict(labels=[draw(st.lists(st.integers(0, 5), min_size=0 if draw(st.booleans()) else 1, max_size=4, unique=True)) for _ in range(2)],
                  seed=draw(gen.seeds)) for _ in range(k)],
      stats=nstat, plan=draw(plans), nan=draw(st.booleans()), scalar=draw(st.booleans()))


@test('P01', overlap_cases(), quick=700)
def overlapping_partial_states(case, ctx):
  """Partial states with arbitrary (partly overlapping, disjoint, reordered) labels add by label."""
  dims = [f'd{i}' for i in range(len(case['kinds']))]
  def lab(kind, l):
    if kind == 'int':
      return np.array(l, int)
    if kind == 'str':
      return np.array([f'k{x}' for x in l], dtype='<U4')
    return np.datetime64('2020-01-01', 'ns') + np.array(l, 'timedelta64[h]')
  import collections
  tot = collections.defaultdict(float)
  states = []
  for pi, p in enumerate(case['parts']):
    # Parts over the same labels (possibly in another order of dims) or over any others.
    L = case['parts'][0 if case['same'] and pi % 3 else pi]['labels'][:len(dims)]
    shape = [len(l) for l in L]
    r = gen.rng(p['seed'])
    trees = []
    for which in range(2):
      tree = {}
      for s in range(case['stats']):
        x = r.integers(1, 50, size=shape).astype(float)
        if case['nan'] and which == 0:
          x = np.where(r.uniform(size=shape) < 0.1, np.nan, x)
        da = xr.DataArray(x, dims=dims, coords={d: lab(k, l) for d, k, l in zip(dims, case['kinds'], L)})
        if case['transpose'] and r.integers(0, 2):
          da = da.transpose(*dims[::-1])
        import itertools
        for idx in itertools.product(*[range(n) for n in shape]):
          tot[(which, s) + tuple(L[j][i] for j, i in enumerate(idx))] += x[idx]
        tree[f's{s}'] = {'v': da}
      if case['scalar']:
        y = float(r.integers(1, 9))
        tree['scalar'] = {'w': xr.DataArray(y)}
        tot[(which, 'scalar')] += y
      trees.append(tree)
    states.append(aggregation.AggregationState(*trees))
  got = merge(states, case['plan'])
  used = [case['parts'][0 if case['same'] and pi % 3 else pi]['labels'] for pi in range(len(case['parts']))]
  unions = [sorted(set(x for l in used for x in l[j])) for j in range(len(dims))]
  ctx.nt(len({json_key(l[:len(dims)]) for l in used}) > 1 or case['transpose'])
  ctx.label(f"same={case['same']}", f"transpose={case['transpose']}", 'kinds=' + '/'.join(case['kinds']), f"nan={case['nan']}")
  for which, tree in enumerate((got.sum_weighted_statistics, got.sum_weights)):
    for s in range(case['stats']):
      e = np.zeros([len(u) for u in unions])
      import itertools
      for idx in itertools.product(*[range(len(u)) for u in unions]):
        e[idx] = tot.get((which, s) + tuple(unions[j][i] for j, i in enumerate(idx)), 0.0)
      exp = xr.DataArray(e, dims=dims, coords={d: lab(k, u) for d, k, u in zip(dims, case['kinds'], unions)})
      same_da(tree[f's{s}']['v'], exp, f'{which} s{s}', sort=True)
    if case['scalar']:
      same_da(tree['scalar']['w'], xr.DataArray(tot[(which, 'scalar')]), 'scalar')


def json_key(x):
  import json
  return json.dumps(x)


METRICS = {
    'rmse': lambda: deterministic.RMSE(), 'mae': lambda: deterministic.MAE(), 'bias': lambda: deterministic.Bias(),
    'pa': lambda: deterministic.PredictionAverage(),
    'csi': lambda: wrappers.WrappedMetric(categorical.CSI(), [wrappers.ContinuousToBinary('both', [0.0, 1.0], 'threshold')]),
    'seeps_like': lambda: wrappers.WrappedMetric(categorical.FrequencyBias(), [wrappers.ContinuousToBinary('both', 0.3, 'threshold')]),
    'crps': lambda: probabilistic.CRPSEnsemble(ensemble_dim='number'),
    'ssr': lambda: probabilistic.UnbiasedSpreadSkillRatio(ensemble_dim='number'),
    'wind': lambda: deterministic.WindVectorRMSE(u_name='u', v_name='v', vector_name='wv'),
}
DET = ['rmse', 'mae', 'bias', 'pa', 'csi', 'seeps_like', 'wind']
ENS = ['crps', 'ssr']


@st.composite
def eval_cases(draw):
  ens = draw(st.booleans())
  return dict(
      n=[draw(st.sampled_from([3, 4, 2, 5])), draw(st.sampled_from([3, 2, 4, 1])), draw(st.sampled_from([2, 3])), 2],
      ics=draw(st.sampled_from([1, 2, 3, 5, None])), lcs=draw(st.sampled_from([1, 2, 3, None])),
      order=draw(st.booleans()), iseed=draw(gen.seeds), step=draw(st.sampled_from([6, 12, 24, 31 * 24])),
      ens=ens, metrics=draw(st.lists(st.sampled_from(ENS if ens else DET), min_size=1, max_size=3, unique=True)),
      reduce=[d for d in ['init_time', 'lead_time', 'latitude', 'longitude'] if draw(st.sampled_from([True, True, False]))],
      bins=draw(st.sampled_from(['none', 'season', 'region', 'month_valid', 'hour', 'lead'])),
      area=draw(st.booleans()), spec=draw(gen.array_spec(('normal', 'int'), (0.0, 0.05))), plan=draw(plans),
      mask=draw(st.booleans()), skipna=draw(st.booleans()), valid=draw(st.booleans()))


@test('P01', eval_cases(), quick=200)
def chunked_evaluation(case, ctx):
  """Whole evaluation over TimeChunks: states and metric values equal the one-shot ones."""
  if case['bins'] != 'none' and not case['skipna']:
    case['spec']['nan'] = 0.0  # NaN * 0 outside a bin may or may not be evaluated (see P03)
  ni, nl, nlat, nlon = case['n']
  init = gen.times(ni, step_h=case['step'])
  lead = gen.h2td(np.arange(nl) * 12)
  if case['order']:
    init = init[gen.rng(case['iseed']).permutation(ni)]
    lead = lead[gen.rng(case['iseed'] + 1).permutation(nl)]
  coords = {'init_time': init, 'lead_time': lead, 'latitude': np.linspace(-50, 60, nlat), 'longitude': np.arange(nlon) * 90.0}
  dims = list(coords)
  use = np.ones((nlat, nlon), bool)
  use[0, 0] = False
  def data(salt, ens=False):
    sh = list(case['n']) + ([3] if ens else [])
    da = xr.DataArray(gen.build(sh, case['spec'], salt), dims=dims + (['number'] if ens else []), coords=coords)
    if case['mask']:
      da = da.assign_coords(mask=(('latitude', 'longitude'), use))
    if case['valid']:
      da = da.assign_coords(valid_time=da.init_time + da.lead_time)
    return da
  pred = {v: data(i, case['ens']) for i, v in enumerate('uv')}
  targ = {v: data(10 + i) for i, v in enumerate('uv')}
  bins = {
      'none': lambda: None,
      'season': lambda: [binning.ByTimeUnit('season', 'init_time')],
      'region': lambda: [binning.Regions({'a': ((-90, 0), (0, 360)), 'b': ((0, 90), (0, 100))})],
      'month_valid': lambda: [binning.ByTimeUnit('month', 'valid_time')],
      'hour': lambda: [binning.ByTimeUnit('hour', 'init_time')],

      'lead': lambda: [binning.ByTimeUnit('hour', 'lead_time'), binning.LatitudeBins(90)],
  }[case['bins']]()
  if case['bins'] == 'month_valid' and (not case['valid'] or case['ens']):
    bins = None
  metrics = {m: METRICS[m]() for m in case['metrics']}
  agg = aggregation.Aggregator(reduce_dims=case['reduce'], bin_by=bins,
                               weigh_by=[weighting.GridAreaWeighting()] if case['area'] else None,
                               masked=case['mask'], skipna=case['skipna'])
  try:
    full = agg.aggregate_statistics(base.compute_unique_statistics_for_all_metrics(metrics, pred, targ))
  except Exception as e:
    fail(f'one-shot evaluation raised {type(e).__name__}: {e}')
  parts = []
  tc = time_chunks.TimeChunks(init, lead, init_time_chunk_size=case['ics'], lead_time_chunk_size=case['lcs'])
  for i, l in tc:
    sel = lambda m: {k: v.sel(init_time=i, lead_time=l) for k, v in m.items()}
    parts.append(agg.aggregate_statistics(base.compute_unique_statistics_for_all_metrics(metrics, sel(pred), sel(targ))))
  ctx.nt(len(parts) > 1)
  ctx.label('bins=' + case['bins'], f"mask={case['mask']}", f"ens={case['ens']}")
  got = merge(parts, case['plan'])
  kept = [d for d in ('init_time', 'lead_time') if d not in case['reduce']]
  for which in ('sum_weighted_statistics', 'sum_weights'):
    same_nested(getattr(got, which), getattr(full, which), which, sort=True, rtol=1e-7, atol=1e-6)
  a, b = got.metric_values(metrics), full.metric_values(metrics)
  check(set(a.data_vars) == set(b.data_vars), f'{set(a.data_vars)} vs {set(b.data_vars)}')
  for k in b.data_vars:
    if k.startswith('ssr'):
      # Ratio of differences: skip values that rounding alone decides.
      num, den = (full.mean_statistics()[n][k[4:]] for n in
                  (s.unique_name for s in metrics['ssr'].statistics.values()))
      ok = (np.abs(num) > 1e-6) & (np.abs(den) > 1e-6)
      a[k], b[k] = a[k].where(ok), b[k].where(ok)
    same_da(a[k], b[k], f'metric {k}', sort=True, rtol=1e-5, atol=1e-5)
