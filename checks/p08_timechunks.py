"""P08: time chunks partition the evaluation period."""
import numpy as np
from hypothesis import strategies as st

from wbxv import gen
from wbxv.cmp import check, expect_raises, fail, same_np
from wbxv.core import test
from weatherbenchX import time_chunks

RULE = ('random init/lead lists (any order, unit, length), windows and chunk sizes; '
        'non-trivial = at least two chunks, or a rejected invalid argument, or a window')
ASSUMPTIONS = ['times are whole seconds']


@st.composite
def cases(draw):
  n_i = draw(st.sampled_from([3, 5, 1, 2, 4, 6, 7, 9]))
  n_l = draw(st.sampled_from([3, 5, 1, 2, 4, 6, 7, 9]))
  inits = draw(st.lists(st.integers(0, 400), min_size=n_i, max_size=n_i, unique=draw(st.booleans())))
  leads = draw(st.lists(st.integers(-20, 400), min_size=n_l, max_size=n_l, unique=draw(st.booleans())))
  ics = draw(st.sampled_from([1, 2, 3, 4, 5, None, 0, 6, 7, 9, 12]))
  lcs = draw(st.sampled_from([1, 2, 3, 4, 5, None, 0, 6, 7, 9, 12]))
  window = draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(-5, 10), st.integers(0, 20))))
  return dict(inits=inits, leads=leads, ics=ics, lcs=lcs,
              window=list(window) if window else None,
              iunit=draw(st.sampled_from(['ns', 's', 'h'])),
              lunit=draw(st.sampled_from(['ns', 's', 'h', 'm'])),
              lkind=draw(st.sampled_from(['td', 'td'])))


def chunks_of(x, size):
  size = size or len(x)
  out, i = [], 0
  while i < len(x):
    out.append(x[i:i + size])
    i += size
  return out


@test('P08', cases(), quick=4000)
def partition(case, ctx):
  inits = (np.datetime64('2020-02-27T00', 'h') + np.array(case['inits'], 'timedelta64[h]')).astype(
      f"datetime64[{case['iunit']}]") if case['inits'] else np.array([], f"datetime64[{case['iunit']}]")
  if case['window']:
    a, w = case['window']
    leads = slice(np.timedelta64(a, 'h'), np.timedelta64(a + w, 'h'))
    lcs = None if case['lcs'] is None else 0
    ctx.label('window')
    ctx.nt()
  else:
    leads = np.array(case['leads'], 'timedelta64[h]').astype(f"timedelta64[{case['lunit']}]")
    lcs = case['lcs']
  i_before = inits.copy()
  tc = time_chunks.TimeChunks(inits, leads, init_time_chunk_size=case['ics'],
                              lead_time_chunk_size=lcs)
  ic = chunks_of(inits.astype('datetime64[ns]'), case['ics'])
  lc = [leads] if case['window'] else chunks_of(leads.astype('timedelta64[ns]'), lcs)
  expected = [(a, b) for a in ic for b in lc]
  got = list(tc)
  ctx.nt(len(expected) > 1)
  ctx.label(f'chunks>1={len(expected) > 1}', f'empty={len(expected) == 0}',
            f'uneven={bool(case["ics"]) and len(inits) % (case["ics"] or 1) != 0}')
  check(len(tc) == len(expected), lambda: f'len {len(tc)} vs {len(expected)} chunks')
  check(len(got) == len(expected), lambda: f'iterated {len(got)} vs {len(expected)} chunks')

  def same(g, e, what):
    check(np.asarray(g[0]).dtype == np.dtype('datetime64[ns]'), f'{what}: init dtype {g[0].dtype}')
    same_np(g[0], e[0], what + ' init times')
    if case['window']:
      check(isinstance(g[1], slice) and g[1] == leads, lambda: f'{what}: window {g[1]} vs {leads}')
    else:
      check(np.asarray(g[1]).dtype == np.dtype('timedelta64[ns]'), f'{what}: lead dtype')
      same_np(g[1], e[1], what + ' lead times')
  for k, (g, e) in enumerate(zip(got, expected)):
    same(g, e, f'chunk {k}')
    same(tc[k], e, f'item {k}')
  # A second pass gives the same chunks (iteration has no state).
  for k, (g, e) in enumerate(zip(list(tc), expected)):
    same(g, e, f'second pass chunk {k}')
  for bad in (-1, len(expected), len(expected) + 3):
    expect_raises(lambda: tc[bad], IndexError, f'index {bad}')
  off = list(tc.iter_with_chunk_offsets())
  check(len(off) == len(expected), 'offset iteration length')
  full_i = inits.astype('datetime64[ns]')
  pos_i, pos = 0, 0
  for a in ic:
    pos_l = 0
    for b in lc:
      o, g = off[pos]
      same(g, (a, b), f'offset chunk {pos}')
      check(o.init_time == pos_i, lambda: f'chunk {pos}: init offset {o.init_time} vs {pos_i}')
      check(o.lead_time == pos_l, lambda: f'chunk {pos}: lead offset {o.lead_time} vs {pos_l}')
      check(np.array_equal(full_i[o.init_time:o.init_time + len(a)], a), 'init offset does not locate chunk')
      pos += 1
      pos_l += 0 if case['window'] else len(b)
    pos_i += len(a)
  same_np(tc.init_times, full_i, 'init_times property')
  if case['window']:
    check(tc.lead_times == leads, 'lead_times property')
  else:
    same_np(tc.lead_times, leads.astype('timedelta64[ns]'), 'lead_times property')
  same_np(inits, i_before, 'caller array')


@st.composite
def bad_cases(draw):
  return dict(kind=draw(st.sampled_from(['ics', 'lcs', 'start', 'stop', 'step', 'slice_chunk', 'type'])),
              v=draw(st.integers(1, 50)), n=draw(st.integers(1, 5)))


@test('P08', bad_cases(), quick=400)
def rejects_invalid(case, ctx):
  ctx.nt()
  ctx.label(case['kind'])
  i = gen.times(case['n'])
  l = gen.h2td(range(case['n']))
  td = lambda h: np.timedelta64(h, 'h')
  v = case['v']
  k = case['kind']
  f = {
      'ics': lambda: time_chunks.TimeChunks(i, l, init_time_chunk_size=-v),
      'lcs': lambda: time_chunks.TimeChunks(i, l, lead_time_chunk_size=-v),
      'start': lambda: time_chunks.TimeChunks(i, slice(None, td(v))),
      'stop': lambda: time_chunks.TimeChunks(i, slice(td(v), None)),
      'step': lambda: time_chunks.TimeChunks(i, slice(td(0), td(v), td(1))),
      'slice_chunk': lambda: time_chunks.TimeChunks(i, slice(td(0), td(v)), lead_time_chunk_size=v),
      'type': lambda: time_chunks.TimeChunks(i, [td(x) for x in range(case['n'])]),
  }[k]
  expect_raises(f, ValueError, f'invalid argument {k}')
