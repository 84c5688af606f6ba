"""P06: the unaggregated store holds every statistic at its own place."""
import math
import os
import shutil
import tempfile

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from checks import p05_distributed as p05, p28_independence as p28
from wbxv import chaosbeam, gen
from wbxv.cmp import check, expect_raises, fail, same_np
from wbxv.core import Discard, test
from weatherbenchX import beam_pipeline, time_chunks
from weatherbenchX.data_loaders import base as lbase
from weatherbenchX.metrics import base, deterministic as det, wrappers as wr

TECHNIQUE = ('property-based testing: the real pipeline graph is executed under generated schedules (bundling, retries, abandoned '
             'attempts, serialisation, write order) and in Beam\'s own runner, differentially against statistics of the complete data in memory')
RULE = ('deterministic or ensemble data with time, space and further coordinates behind in-memory, zarr, persistence, climatology and latency '
        'loaders; 1-3 metrics, statistics without initialization or lead time included; any computation chunking and storage chunking of any '
        'dim, including sizes that do not divide each other, and computation chunks larger than the dim; dims in any order; one in ten cases in Beam\'s own runner; '
        'non-trivial = more than one computation chunk or storage chunk')
ASSUMPTIONS = ['the statistics requested have compatible coordinates, as documented',
               'a statistic without a time dim is the same for every chunk of that dim, and such a dim is not chunked']


class Transposed(lbase.DataLoader):
  """Another loader's data with dims in a given order."""

  def __init__(self, loader, seed):
    super().__init__()
    self.loader, self.seed = loader, seed

  def _load_chunk_from_source(self, init_times, lead_times=None):
    out = {v: x for v, x in self.loader.load_chunk(init_times, lead_times).items()}
    return {v: x.transpose(*gen.rng([self.seed, i]).permutation(sorted(map(str, x.dims)))) for i, (v, x) in enumerate(out.items())}


@st.composite
def cases(draw):
  c = draw(p05.grid_cases())
  c.update(mask=False, nanmask=False, bins=[], extra=c['extra'],
           order=draw(st.sampled_from(['asc', 'asc', 'desc', 'mixed'])), perm=draw(st.sampled_from([None, None, 1, 2, 3])),
           ics=draw(st.sampled_from([1, 2, 3, 4, None, 0])), lcs=draw(st.sampled_from([1, 2, 3, None, 0])),
           zc=draw(st.one_of(st.none(), st.fixed_dictionaries({}, optional={d: st.sampled_from([1, 2, 3, -1, 4]) for d in ('init_time', 'lead_time', 'latitude', 'longitude')}))),
           special=draw(st.sampled_from([None, None, None, 'lead_mean', 'static', 'slice', 'init_mean'])))
  if c['special']:
    c['source'] = 'table'
    c['specs'] = [s for s in c['specs'] if s['m'] in ('Bias', 'MAE', 'RMSE', 'MSE')]
    c['ens'] = c['tens'] = False
  if c['special'] == 'lead_mean':
    c['lcs'] = None
  if c['special'] == 'init_mean':
    c['ics'] = None
  return c


class SliceLoader(p05.TableLoader):
  """Accepts lead-time slices."""

  def _load_chunk_from_source(self, init_times, lead_times=None):
    return {v: x.sel(init_time=init_times).sortby('lead_time').sel(lead_time=lead_times) for v, x in self.data.items()}


@test('P06', cases(), 240, 4800)
def unaggregated_store(case, ctx):
  p, t = p28.data(case)
  def prepare(m):
    out = {}
    for v, x in m.items():
      if case['valid']:
        x = x.assign_coords(valid_time=x.init_time + x.lead_time)
      if case['aux'] == 'scalar':
        x = x.assign_coords(run=7)
      elif case['aux']:
        d = {'lead': 'lead_time', 'init': 'init_time', 'lat': 'latitude'}[case['aux']]
        x = x.assign_coords(aux=(d, np.arange(x.sizes[d]) * 1.5))
      out[v] = x
    return out
  p, t = prepare(p), prepare(t)
  metrics = {f'm{i}': p28.build(s) for i, s in enumerate(case['specs'])}
  lead = p28.label('lead_time')
  if case['special'] in ('lead_mean', 'init_mean'):
    d = case['special'].replace('mean', 'time')
    metrics['special'] = wr.WrappedMetric(det.Bias(), [wr.EnsembleMean('both', d)])
  elif case['special'] == 'static':
    p['static'] = t['static'] = xr.DataArray([1.0, 2.0, 4.0], dims='latitude', coords={'latitude': p28.label('latitude')})
    case['lcs'] = case['ics'] = None
  if not metrics:
    metrics = {'m': det.MSE()}
  tmp = tempfile.mkdtemp(prefix='wbxv_p06_')
  try:
    if case['special'] in ('static', 'slice'):
      cls = SliceLoader if case['special'] == 'slice' else StaticLoader
      pl, tl = cls(p, setup=case['setup']), cls(t, setup=case['setup'])
    else:
      pl, tl = p05.gridded_loaders(case, p, t, tmp)
    if case['perm']:
      pl = Transposed(pl, case['perm'])
    i = {'asc': [0, 1, 2], 'desc': [2, 1, 0], 'mixed': [1, 2, 0]}[case['order']]
    init, leads, lcs = p28.label('init_time')[i], lead[::1 if case['order'] == 'asc' else -1], case['lcs']
    if case['special'] == 'slice':
      leads, lcs = slice(lead[0], lead[-1 if case['order'] == 'asc' else 0]), None
    times = time_chunks.TimeChunks(init, leads, case['ics'], lcs)
    p05.SETUP[0] = 1
    try:
      tc = tl.load_chunk(times.init_times, times.lead_times)
      stats = base.compute_unique_statistics_for_all_metrics(metrics, pl.load_chunk(times.init_times, times.lead_times, tc), tc)
      want = {f'{s}.{v}': x for s, d in stats.items() for v, x in d.items()}
      joint = xr.Dataset()
      for n, x in want.items():
        joint[n] = x
      for n, x in want.items():
        if dict(joint[n].sizes) != dict(x.sizes) or any((d in x.coords) != (d in joint.coords) for d in x.dims) or not all(
            np.array_equal(joint[d].values, x[d].values) for d in x.dims if d in x.coords):
          raise ValueError('incompatible')
    except Exception as e:
      ctx.label('invalid_in_memory:' + type(e).__name__ + str(e)[:60])
      raise Discard()
    if not want or any(x.size == 0 for x in want.values()) or (not case.get('names') and any(ch in n for n in want for ch in '[*?')):
      raise Discard()  # See bracket_names.
    p05.SETUP[0] = 0
    out = os.path.join(tmp, 'out.zarr')
    zc = None if case['zc'] is None else {d: n for d, n in case['zc'].items() if d in joint.dims and n <= joint.sizes[d]}  # Larger ones are refused.
    def pieces():  # Every stored chunk is a file: a store of thousands of them takes minutes.
      return sum(math.prod(-(-x.sizes[d] // (x.sizes[d] if zc[d] == -1 else zc[d])) for d in x.dims if d in zc) for x in want.values())
    while zc and pieces() > 80:
      del zc[min(zc, key=lambda d: zc[d] / joint.sizes[d] if zc[d] > 0 else 1)]
    def define(root):
      beam_pipeline.define_unaggregated_pipeline(root, times, pl, tl, metrics, out, zarr_chunks=zc, setup_fn=p05.setup if case['setup'] else None)
    if any('mask' in x.coords for x in want.values()):
      expect_raises(lambda: chaosbeam.run(define, 0, 1, 0.0), ValueError, 'masked statistics')
      ctx.label('masked_refused')
      return
    run = p05.execute(case, define, lambda: shutil.rmtree(out, ignore_errors=True))
    with xr.open_zarr(out, decode_timedelta=True) as ds:
      chunks = {n: dict(zip(x.dims, x.encoding.get('chunks', ()))) for n, x in ds.items()}
      got = ds.load()
  finally:
    shutil.rmtree(tmp)
  check(set(got) == set(want), lambda: f'store holds {sorted(got)}, expected {sorted(want)}')
  for n, x in want.items():
    y = got[n]
    if set(y.dims) != set(x.dims):
      fail(f'{n}: dims {y.dims}, expected {x.dims}')
    y = y.transpose(*x.dims)
    if y.sizes != x.sizes:
      fail(f'{n}: sizes {dict(y.sizes)}, expected {dict(x.sizes)}')
    for d in x.dims:
      check((d in y.coords) == (d in x.coords), lambda: f'{n}: labels of {d}: {d in y.coords}, expected {d in x.coords}')
      if d in x.coords:
        same_np(p05.coerce(y[d].values), p05.coerce(x[d].values), f'{n}: labels of {d}', 1e-12, 1e-12)
    same_np(np.asarray(y.values, float), np.asarray(x.values, float), n, 1e-5, 1e-6)
    if {'init_time', 'lead_time'} <= set(x.dims):
      check('valid_time' in y.coords, f'{n}: no valid time')
      v = y['valid_time'].transpose('init_time', 'lead_time').values
      same_np(p05.coerce(v), p05.coerce((x.init_time + x.lead_time).transpose('init_time', 'lead_time').values), f'{n}: valid time', 0, 0)
    for d, c in (zc or {}).items():
      if d in x.dims:
        check(chunks[n][d] == (x.sizes[d] if c == -1 else min(c, x.sizes[d])), lambda: f'{n}: stored in chunks {chunks[n]}, asked for {zc}')
  ctx.label('runner=' + ('chaos' if run else 'beam'), 'source=' + case['source'], f"special={case['special']}", f"aux={case['aux']}", 'order=' + case['order'],
            f'perm={bool(case["perm"])}', f'zc={"none" if zc is None else sorted(zc)}')
  ctx.nt(len(times) > 1 or any(c < x.sizes[d] for n, x in want.items() for d, c in chunks[n].items()))


class StaticLoader(p05.TableLoader):
  """Some variables have no times."""

  def _load_chunk_from_source(self, init_times, lead_times=None):
    return {v: x.sel(init_time=init_times, lead_time=lead_times) if 'init_time' in x.dims else x for v, x in self.data.items()}


@test('P06', st.sampled_from([dict(w=['shift', dict(which='predictions', s=[0.5, 1.0], d='sh')]), dict(w=['sel', dict(which='both', a=dict(isel=dict(latitude=[1, 2])))])]), 2, 2)
def bracket_names(case, ctx):
  """Statistics with lists in their unique name: fixed cases, see known_findings.json."""
  c = {**BASE, 'specs': [dict(m='MAE', a={}, w=[case['w']])], 'names': True}
  unaggregated_store(c, ctx)


BASE = dict(ens=False, tens=False, two=False, seed=1, pos=False, nan=0, mask=False, dataset=False, extra=False, real=False, sched=0, bundle=1, retry=0.0, files='both',
            ics=2, lcs=1, setup=False, reduce=[], bins=[], area=False, masked=False, skipna=False, nanmask=False, valid=False, aux=None, attrs=False, order='asc',
            source='table', perm=None, zc=None, special=None)
