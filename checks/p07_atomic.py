"""P07: result files are replaced all-or-nothing (faults, crashes, concurrent writers)."""
import os
import pickle
import shutil
import signal
import sys
import tempfile
import threading
import time

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wbxv import faultfs, gen
from wbxv.cmp import check, fail
from wbxv.core import REPO, test
from weatherbenchX import aggregation, beam_pipeline, beam_utils

RULE = ('random contents and prior states; one fault or process death at every primitive file operation of a '
        'model file system, scheduled interleavings of 2-3 writers, process death at random executed lines, '
        'write limits and real racing processes on the local file system; non-trivial = a fault fired, '
        'a process died mid-write, or at least two writers ran')
ASSUMPTIONS = ['the file system move is atomic (stated in the docstring)',
               'a killed process cannot remove its temporary file; only the destination is checked then']

faultfs.install()


def content(c, salt=0):
  n = c['size']
  return gen.rng([c['seed'], salt]).integers(0, 256, size=n, dtype=np.uint8).tobytes()


contents = st.fixed_dictionaries(dict(size=st.sampled_from([100, 0, 1, 5000, 37]), seed=gen.seeds))


@st.composite
def model_cases(draw, writers=1):
  ws = [dict(data=draw(contents), via='raw' if writers > 1 else draw(st.sampled_from(['raw', 'raw', 'metrics', 'state'])),
             mkdir=draw(st.booleans())) for _ in range(writers)]
  nf = draw(st.sampled_from([1, 1, 2, 0] if writers == 1 else [0, 0, 1]))
  faults = [dict(writer=draw(st.integers(0, writers - 1)), at=draw(st.integers(0, 7)),
                 kind=draw(st.sampled_from(['error', 'crash', 'interrupt'])), after=draw(st.booleans()))
            for _ in range(nf)]
  return dict(writers=ws, faults=faults, prior=draw(st.sampled_from([True, False])),
              bystander=draw(st.booleans()), schedule=draw(st.lists(st.integers(0, 2), max_size=24)),
              name=draw(st.sampled_from(['out.nc', 'a b.nc', 'x', 'tmp.out'])))


def run_writer(w, url, salt):
  if w['via'] == 'raw':
    beam_utils.atomic_write(url, content(w['data'], salt), **({} if w['mkdir'] else {'auto_mkdir': False}))
  elif w['via'] == 'metrics':
    list(beam_pipeline.WriteMetrics(url).process(dataset(w, salt)))
  else:
    list(beam_pipeline.WriteAggregationState(url).process(agg_state(w, salt)))


def dataset(w, salt):
  return xr.Dataset({'rmse.x': ('lead_time', gen.build([3], dict(seed=w['data']['seed'], kind='normal'), salt))},
                    attrs={'a': 'b'})


def agg_state(w, salt):
  d = dataset(w, salt)['rmse.x']
  return aggregation.AggregationState({'s': {'x': d}}, {'s': {'x': d + 10}})


def full_content(w, salt):
  if w['via'] == 'raw':
    return content(w['data'], salt)
  if w['via'] == 'metrics':
    return bytes(dataset(w, salt).drop_attrs(deep=True).to_netcdf())
  return bytes(agg_state(w, salt).to_dataset().drop_attrs(deep=True).to_netcdf())


def model(case, ctx):
  dest = 'dir/sub/' + case['name']
  old = b'previous content'
  files = {}
  if case['prior']:
    files[dest] = old
  if case['bystander']:
    files['dir/sub/other.nc'] = b'other'
    files['dir/sub/tmp.keep'] = b'keep'
  initial = {k: v for k, v in files.items() if k != dest}
  n = len(case['writers'])
  full = [full_content(w, i) for i, w in enumerate(case['writers'])]
  allowed = set(full) | ({old} if case['prior'] else set())
  bad = []

  def observe(world):
    if dest in world.files:
      if world.files[dest] not in allowed:
        bad.append((world.log[-1], len(world.files[dest])))
    elif case['prior']:
      bad.append((world.log[-1], 'absent'))
    for k, v in initial.items():
      if world.files.get(k) != v:
        bad.append((world.log[-1], k))
  sched = faultfs.Sched(case['schedule'], n) if n > 1 else None
  world = faultfs.World(files, case['faults'], sched, observe)
  world.dirs |= {'dir', 'dir/sub'}
  faultfs.FaultFS.world = world
  outcome = [None] * n

  def go(i):
    threading.current_thread().writer = i
    try:
      run_writer(case['writers'][i], 'wbxfault://' + dest, i)
      outcome[i] = ('ok', None)
    except BaseException as e:  # pylint: disable=broad-except
      outcome[i] = ('raised', e)
    finally:
      if sched is not None:
        sched.done(i)
  threads = [threading.Thread(target=go, args=(i,)) for i in range(n)]
  for t in threads:
    t.start()
  for t in threads:
    t.join(120)
    if t.is_alive():
      raise RuntimeError('writer did not finish')
  fired = [f for f in world.fired]
  ctx.label(f'writers={n}', *[f'fault {k} at {op}' for _, op, k in fired])
  ctx.nt(bool(fired) or n > 1)
  check(not bad, lambda: f'destination held neither complete previous nor complete new content: {bad[:3]}; log {world.log}')
  ok = [i for i in range(n) if outcome[i][0] == 'ok']
  for i in range(n):
    mine = [k for w, _, k in fired if w == i]
    if outcome[i][0] == 'raised':
      e = outcome[i][1]
      if not mine:
        # Nothing was injected here: this writer must not fail.
        if isinstance(e, Exception) or isinstance(e, faultfs.Crash):
          fail(f'writer {i} failed without a fault: {type(e).__name__}: {e}; log {world.log}')
      if mine and 'crash' not in mine:
        check(isinstance(e, (OSError, KeyboardInterrupt)), f'writer {i}: fault reported as {type(e).__name__}: {e}')
  got = world.files.get(dest)
  if ok and len(ok) == n:
    check(got in [full[i] for i in ok], 'successful write, but the destination has other content')
  elif n == 1 and not ok:
    late = any(f['after'] for f in case['faults'])
    if not late:
      check(got == (old if case['prior'] else None) or got == full[0], 'failed write changed the destination')
  # Stray files: none unless a process died or the clean-up itself was made to fail.
  if not any(k == 'crash' for _, _, k in fired) and not any(op == 'rm' for _, op, _ in fired):
    stray = set(world.files) - {dest} - set(initial)
    check(not stray, lambda: f'stray files {stray}; log {world.log}; outcome {outcome}')


@test('P07', model_cases(), quick=2500)
def faults_at_every_operation(case, ctx):
  model(case, ctx)


@test('P07', st.one_of(model_cases(2), model_cases(3)), quick=1500)
def interleaved_writers(case, ctx):
  model(case, ctx)


# ---------------------------------------------------- real local file system

@st.composite
def crash_cases(draw):
  return dict(data=draw(contents), prior=draw(st.booleans()), frac=draw(st.floats(0, 1)),
              via=draw(st.sampled_from(['raw', 'raw', 'raw', 'metrics', 'state'])), exc=draw(st.sampled_from(['exit', 'raise'])))


TRACED = ('fsspec', 'shutil.py', 'weatherbenchX', 'scipy_', '_netcdf.py', 'uuid.py')


def child(fn):
  """Runs fn in a forked child with its own scratch files; returns the wait status."""
  sys.stdout.flush()
  pid = os.fork()
  if pid == 0:
    try:
      fn()
      os._exit(0)
    except BaseException:  # pylint: disable=broad-except
      os._exit(3)
  return os.waitpid(pid, 0)[1]


def trace_run(fn, at, action):
  """Runs fn, performing action at the at-th executed line of the traced files."""
  count = [0]
  def local(frame, event, arg):
    if event == 'line':
      if count[0] == at:
        count[0] += 1
        action()
      count[0] += 1
    return local
  def glob(frame, event, arg):
    fn_ = frame.f_code.co_filename
    return local if any(t in fn_ for t in TRACED) else None
  sys.settrace(glob)
  try:
    fn()
  finally:
    sys.settrace(None)
  return count[0]


_LINES = {}


@test('P07', crash_cases(), quick=350)
def process_death_at_any_line(case, ctx):
  """A real process dies at a random executed line while writing a real file."""
  d = tempfile.mkdtemp(prefix='p07_')
  try:
    dest = os.path.join(d, 'out', 'res.nc')
    w = dict(data=case['data'], via=case['via'], mkdir=True)
    key = case['via']
    if key not in _LINES:
      r, wfd = os.pipe()
      def probe():
        n = trace_run(lambda: run_writer(w, os.path.join(d, 'probe', 'x.nc'), 0), -1, lambda: None)
        os.write(wfd, str(n).encode())
      child(probe)
      os.close(wfd)
      _LINES[key] = int(os.read(r, 100) or b'0')
      os.close(r)
    at = int(case['frac'] * max(_LINES[key] - 1, 1))
    old = b'previous' * 10
    if case['prior']:
      os.makedirs(os.path.dirname(dest))
      open(dest, 'wb').write(old)
    status = child(lambda: trace_run(lambda: run_writer(w, dest, 0), at, lambda: os._exit(9)))
    died = os.WIFEXITED(status) and os.WEXITSTATUS(status) == 9
    ctx.nt(died)
    ctx.label('via=' + case['via'], f'died={died}')
    if not died and status != 0:
      fail(f'write to a fresh local path failed (status {status})')
    got = open(dest, 'rb').read() if os.path.exists(dest) else None
    new = full_content(w, 0)
    check(got in ((old if case['prior'] else None), new),
          lambda: f'after process death at line event {at}: destination has {None if got is None else len(got)} bytes of {len(new)}')
    if not died:
      check(got == new and os.listdir(os.path.dirname(dest)) == ['res.nc'],
            lambda: f'after success: {os.listdir(os.path.dirname(dest))}')
  finally:
    shutil.rmtree(d, ignore_errors=True)


@st.composite
def limit_cases(draw):
  return dict(data=dict(size=draw(st.sampled_from([5000, 200000, 70000])), seed=draw(gen.seeds)),
              limit=draw(st.sampled_from([0, 1, 100, 4096, 65536])), prior=draw(st.booleans()),
              fault=draw(st.sampled_from(['limit', 'isdir', 'longname', 'nodir'])), full=draw(st.booleans()))


@test('P07', limit_cases(), quick=250)
def local_failures_leave_nothing_behind(case, ctx):
  """Genuine operating-system failures: file size limit, destination is a directory, name too long, no directory."""
  d = tempfile.mkdtemp(prefix='p07_')
  try:
    os.makedirs(os.path.join(d, 'o'))
    dest = os.path.join(d, 'o', 'res.nc')
    data = content(case['data'])
    old = b'previous'
    kw = {}
    if case['fault'] == 'longname':
      dest = os.path.join(d, 'o', 'n' * 250)
    if case['fault'] == 'nodir':
      dest, kw = os.path.join(d, 'absent', 'x.nc'), dict(auto_mkdir=False)
    if case['fault'] == 'isdir':
      os.makedirs(dest)
      if case['full']:
        open(os.path.join(dest, 'inner'), 'wb').write(b'i')
    elif case['prior'] and case['fault'] != 'nodir':
      open(dest, 'wb').write(old)
    def listing():
      return sorted((os.path.relpath(os.path.join(r, f), d)) for r, _, fs in os.walk(d) for f in fs)
    before = listing()
    def go():
      if case['fault'] == 'limit':
        import resource
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (case['limit'], case['limit']))
      try:
        beam_utils.atomic_write(dest, data, **kw)
      except OSError:
        os._exit(7)
    status = child(go)
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else None
    must_fail = case['fault'] in ('isdir', 'nodir') or (case['fault'] == 'limit' and case['limit'] < len(data))
    ctx.label('fault=' + case['fault'], f'code={code}')
    ctx.nt(code == 7)
    check(code in (0, 7), f"writer ended with {status} ({case['fault']})")
    if must_fail:
      check(code == 7, f"{case['fault']}: the failure was not reported")
    if code == 7:
      check(listing() == before, lambda: f"{case['fault']}: stray files: {before} -> {listing()}")
      if case['prior'] and case['fault'] in ('limit', 'longname'):
        check(open(dest, 'rb').read() == old, 'previous content damaged')
    else:
      check(open(dest, 'rb').read() == data, 'content')
      check(set(listing()) == set(before) | {os.path.relpath(dest, d)}, lambda: f'stray: {listing()}')
  finally:
    shutil.rmtree(d, ignore_errors=True)


@st.composite
def race_cases(draw):
  return dict(writers=draw(st.integers(2, 4)), size=draw(st.sampled_from([200000, 20000, 2000000])),
              seed=draw(gen.seeds), rounds=draw(st.integers(1, 4)), prior=draw(st.booleans()),
              kill_ms=draw(st.sampled_from([0, 3, 10, 25])))


@test('P07', race_cases(), quick=60)
def racing_processes(case, ctx):
  """Real concurrent processes rewrite one file (some are killed) while it is read continuously."""
  d = tempfile.mkdtemp(prefix='p07_')
  try:
    dest = os.path.join(d, 'o', 'res.nc')
    datas = [content(dict(size=case['size'] + 7 * i, seed=case['seed']), i) for i in range(case['writers'])]
    allowed = set(datas)
    old = b'previous'
    if case['prior']:
      os.makedirs(os.path.dirname(dest))
      open(dest, 'wb').write(old)
      allowed.add(old)
    pids = []
    for i in range(case['writers']):
      pid = os.fork()
      if pid == 0:
        try:
          for _ in range(case['rounds']):
            beam_utils.atomic_write(dest, datas[i])
          os._exit(0)
        except BaseException:  # pylint: disable=broad-except
          os._exit(3)
      pids.append(pid)
    ctx.nt()
    ctx.label(f"killed={case['kill_ms'] > 0}")
    t0, left, codes, reads = time.time(), list(pids), {}, 0
    killed = False
    while left:
      if case['kill_ms'] and not killed and pids[0] in left and (time.time() - t0) * 1000 > case['kill_ms']:
        os.kill(pids[0], signal.SIGKILL)
        killed = True
      try:
        got = open(dest, 'rb').read()
        reads += 1
        if got not in allowed:
          for p in left:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
          left = []
          fail(f'a reader saw {len(got)} bytes that are no writer\'s complete content')
      except FileNotFoundError:
        if case['prior'] or any(c == 0 for c in codes.values()):
          for p in left:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
          left = []
          fail('the destination was absent while being replaced')
      for p in list(left):
        r, s = os.waitpid(p, os.WNOHANG)
        if r:
          codes[p] = s
          left.remove(p)
    for i, p in enumerate(pids):
      if not (i == 0 and killed):
        check(codes[p] == 0, f'writer {i} failed with status {codes[p]}')
    if os.path.exists(dest):
      check(open(dest, 'rb').read() in allowed, 'final content')
    if not killed:
      check(os.listdir(os.path.dirname(dest)) == ['res.nc'], lambda: f'stray: {os.listdir(os.path.dirname(dest))}')
      check(open(dest, 'rb').read() in datas, 'no new content after success')
  finally:
    shutil.rmtree(d, ignore_errors=True)
