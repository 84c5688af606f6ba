"""P29: evaluation never changes its inputs; evaluating again gives the same result."""
import importlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from wbxv import monitor
from wbxv.core import Discard, TESTS, Violation, test
from weatherbenchX import binning, weighting

RULE = ('the generated inputs of every other check are run with the library instrumented: each library call the harness '
        'makes has all objects reachable from its arguments (and from the constructor arguments of the objects among them) '
        'copied before and compared after, and up to twelve calls per case are repeated at the end in a generated order; '
        'non-trivial = at least two library calls were bracketed and one was repeated')
ASSUMPTIONS = ['lazily loaded data are compared by metadata only', 'methods with unseeded randomness are not repeated',
               'private caches of library objects are not inputs of the caller']
SKIP = {('P07', '*'), ('P08', '*'), ('P04', 'through_files'), ('P05', '*'), ('P06', '*'), ('P29', '*'), ('P31', '*'), ('P32', '*')}
SHARE = {'P13': 20, 'P20': 12, 'P21': 16, 'P22': 16, 'P23': 40, 'P28': 6}


def wrap(t):
  @st.composite
  def cases(draw):
    case = draw(t.strategy)
    return dict(inner=case, order=draw(st.permutations(list(range(12)))))

  def check(case, ctx):
    with monitor.recording() as m:
      try:
        t.check(case['inner'], _Quiet())
      except monitor.Mutation:
        raise
      except Discard:
        raise
      except Exception:  # the other property's business
        ctx.label('other_oracle_failed')
      try:
        n = monitor.replay_calls(case['order'][:6])
      except monitor.Mutation:
        raise
      except FileNotFoundError:
        n = 0
        ctx.label('files_gone')
      except Exception as e:
        raise Violation(f'a call that succeeded fails when repeated with the same objects: {type(e).__name__}: {e}') from e
      ctx.label(f'calls{min(m.ncalls, 5)}', 'repeated' if n else 'not_repeated')
      ctx.nt(m.ncalls >= 2 and n >= 1)
  return cases(), check


class _Quiet:
  def label(self, *a):
    pass

  def nt(self, *a):
    pass


HERE = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(HERE)):
  if f[0] != 'p' or not f.endswith('.py') or f == os.path.basename(__file__):
    continue
  prop = f[:3].upper()
  if (prop, '*') in SKIP:
    continue
  importlib.import_module('checks.' + f[:-3])
  for t in list(TESTS.get(prop, [])):
    if (prop, t.name) in SKIP:
      continue
    strat, chk = wrap(t)
    n = max(8, int(t.quick / SHARE.get(prop, 30)))
    test('P29', strat, n, n * 20, name=f'{prop}_{t.name}')(chk)


# ------------------------------------------------------------- long-lived objects

p21 = importlib.import_module('checks.p21_xarray_loaders')
p22 = importlib.import_module('checks.p22_latency')
p23 = importlib.import_module('checks.p23_sparse')
p28 = importlib.import_module('checks.p28_independence')
aggref = importlib.import_module('wbxv.aggref')


def outcome(f):
  """Snapshot of f()'s result, or the kind of error."""
  try:
    return monitor.snap(f(), ctor=False)
  except Exception as e:
    return ('atom', 'raised ' + type(e).__name__)


def history(requests, shared, fresh, what):
  """Every request answered by one long-lived object is answered as by a new one. Number of successful requests."""
  ok, known = 0, {}
  for n, r in enumerate(requests):
    got = outcome(lambda: r(shared))
    if id(r) not in known:
      known[id(r)] = outcome(lambda: r(fresh()))
    want = known[id(r)]
    d = monitor.diff(want, got, 'result', exact=False)
    if d:
      raise Violation(f'{what}: request {n} of a sequence is answered differently than by a new object: {d}')
    ok += not (want[0] == 'atom' and str(want[1]).startswith('raised'))
  return ok


@st.composite
def loader_cases(draw):
  kind = draw(st.sampled_from(['gridded', 'gridded', 'gridded', 'latency', 'sparse']))
  ix = st.lists(st.integers(0, 30), min_size=1, max_size=3, unique=True)
  req = st.fixed_dictionaries(dict(init=ix, lead=st.one_of(ix, ix, st.none())))
  inner = {'gridded': p21.cases, 'latency': p22.cases, 'sparse': p23.cases}[kind]
  return dict(kind=kind, inner=draw(inner()), reqs=draw(st.lists(req, min_size=2, max_size=5)))


@test('P29', loader_cases(), 400, 9000)
def loaders_answer_every_request_afresh(case, ctx):
  c, kind = case['inner'], case['kind']
  pick = lambda a, ix: np.array([a[k] for k in dict.fromkeys(i % len(a) for i in ix)])
  tmp = None
  try:
    if kind == 'gridded':
      ds, _, _, _, _, _, t, leads = p21.make(c)
      path = None
      if c['src'] != 'ds':
        tmp = tempfile.mkdtemp(prefix='wbxv_p29_')
        path = os.path.join(tmp, 'data.zarr' if c['src'] == 'zarr' else 'data.nc')
        ds.to_zarr(path) if c['src'] == 'zarr' else ds.to_netcdf(path, engine='scipy')
      times = np.sort(t).astype('datetime64[ns]')
      fresh = lambda: p21.loader(c, ds.copy(deep=True), path)[0]
      before = ds.copy(deep=True)
      shared = p21.loader(c, ds, path)[0]
    elif kind == 'latency':
      def fresh():
        b = [p22.build(c, j, s)[0] for j, s in enumerate(c['src'])]
        cd = 'index' if c['sparse'] else 'init_time'
        return p22.lw.MultipleConstantLatencyWrapper(b, concat_dim=cd) if len(b) > 1 or c['force_multi'] else b[0]
      times = np.array([np.datetime64('2020-01-01', 'ns') + p22.td(q) for q in sorted({0, 6, 12, 20, 24, 31, 60} | set(c['q']))])
      leads = np.array([p22.td(l) for l in (0, 1, 3, 6, 12)])
      shared = fresh()
    else:
      df, raw = p23.table(c)
      tmp = tempfile.mkdtemp(prefix='wbxv_p29_')
      base = np.datetime64(c['base'], 'ns')
      times = base + np.array([p23.mins(60 * i) for i in range(0, c['span'] // 2 + 1, 3)])
      leads = np.array([p23.mins(60 * l) for l in c['leads']])
      p23.partition_files(c, df, tmp, times[0] - p23.mins(600), times[-1] + p23.mins(60 * 24 + 600))
      fresh = lambda: p23.make_loader(c, tmp, raw)[0]
      shared = fresh()
    sl = slice(p23.mins(c['slice'][0]), p23.mins(c['slice'][1])) if kind == 'sparse' and c['mode'] == 'slice' else None
    reqs = []
    for r in case['reqs'] + case['reqs'][:2]:
      i, l = pick(times, r['init']), (pick(leads, r['lead']) if r['lead'] is not None else None)
      l = sl if sl is not None else l
      reqs.append(lambda ld, i=i, l=l: dict(ld.load_chunk(i.copy(), l if isinstance(l, slice) or l is None else l.copy())))
    ok = history(reqs, shared, fresh, f'{kind} loader')
    if kind == 'gridded' and c['src'] == 'ds' and not ds.identical(before):
      raise Violation('the source data set was modified')
    ctx.label('loader=' + kind)
    ctx.nt(ok >= 2)
  finally:
    if tmp:
      shutil.rmtree(tmp)


@st.composite
def metric_cases(draw):
  c = draw(p28.cases())
  return dict(c, hist=draw(st.sampled_from([[0, 1, 0], [1, 0, 1], [0, 2, 0], [1, 2, 1]])), part=draw(st.booleans()), agg=draw(st.booleans()))


@test('P29', metric_cases(), 100, 4000)
def metrics_and_aggregators_have_no_memory(case, ctx):
  """One set of metric, weighting, binning and aggregator objects over a sequence of chunks equals new objects per chunk."""
  def chunk(k):
    p, t = p28.data(dict(case, seed=case['seed'] + k))
    if case['part'] and k:
      p, t = [{v: x.isel(init_time=slice(0, 1 + k % 2)) for v, x in m.items()} for m in (p, t)]
    return p, t

  class Objects:
    def __init__(self):
      self.metrics = {f'm{i}': p28.build(s) for i, s in enumerate(case['specs'])}
      self.agg = p28.aggregation.Aggregator(
          reduce_dims=case['reduce'], weigh_by=[weighting.GridAreaWeighting()] if case['agg'] else None,
          bin_by=[binning.ByTimeUnit('hour', 'init_time'), binning.Regions({'r': ((-30, 90), (0, 200))})] if case['agg'] else None)

  def evaluate(o, k):
    p, t = chunk(k)
    stats = p28.base.compute_unique_statistics_for_all_metrics(o.metrics, p, t)
    state = o.agg.aggregate_statistics(stats)
    mean = state.mean_statistics()
    return p28.base.compute_metrics_from_statistics(o.metrics, mean)
  ask = {k: (lambda o, k=k: evaluate(o, k)) for k in case['hist']}
  ok = history([ask[k] for k in case['hist']], Objects(), Objects, 'metrics and aggregator')
  ctx.label('len%d' % len(case['hist']), 'evaluated' if ok else 'all_invalid')
  ctx.nt(ok >= 2 and len(set(case['hist'])) > 1)
