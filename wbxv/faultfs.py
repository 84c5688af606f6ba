"""In-memory fsspec file system with atomic moves, fault injection and a scheduler.

Every primitive (directory creation, open/truncate, each half of a write, close,
move, remove, copy, lookups) is one event. A fault plan can make an event raise
before or after taking effect, or kill the process (all later operations of that
writer are lost). An optional scheduler interleaves several writers event by event.
"""
import io
import threading

import fsspec


class Crash(BaseException):
  """The simulated death of a writer process."""


class Injected(OSError):
  pass


class World:
  """Files, event log, faults and observers shared by all handles."""

  def __init__(self, files, faults=(), sched=None, observe=None):
    self.files = dict(files)
    self.dirs = set()
    self.faults = {(f['writer'], f['at']): f for f in faults}
    self.count = {}
    self.dead = set()
    self.sched = sched
    self.observe = observe
    self.log = []
    self.fired = []

  def event(self, kind, path, effect):
    w = getattr(threading.current_thread(), 'writer', 0)
    if self.sched is not None:
      self.sched.point(w)
    try:
      if w in self.dead:
        raise Crash()
      n = self.count.get(w, 0)
      self.count[w] = n + 1
      f = self.faults.get((w, n))
      self.log.append((w, kind, path))
      if f is None:
        return effect()
      self.fired.append((w, kind, f['kind']))
      if f['after']:
        effect()
      if f['kind'] == 'crash':
        self.dead.add(w)
        raise Crash()
      if f['kind'] == 'interrupt':
        raise KeyboardInterrupt()
      raise Injected(28, 'injected fault', path)
    finally:
      if self.observe is not None:
        self.observe(self)


class Sched:
  """Lets one writer run one event at a time, in the order given by choices."""

  def __init__(self, choices, writers):
    self.choices, self.pos = list(choices), 0
    self.alive = set(range(writers))
    self.waiting = set()
    self.turn = None
    self.cond = threading.Condition()

  def _pick(self):
    # Choose only once every live writer is waiting at a point.
    if self.turn is None and self.alive and self.waiting >= self.alive:
      a = sorted(self.alive)
      c = self.choices[self.pos % len(self.choices)] if self.choices else 0
      self.pos += 1
      self.turn = a[c % len(a)]
      self.cond.notify_all()

  def point(self, w):
    with self.cond:
      if self.turn == w:
        self.turn = None  # the previous event of this writer is over
      self.waiting.add(w)
      self._pick()
      while self.turn != w:
        if not self.cond.wait(timeout=60):
          raise RuntimeError('scheduler stuck')
      self.waiting.discard(w)

  def done(self, w):
    with self.cond:
      self.alive.discard(w)
      self.waiting.discard(w)
      if self.turn == w:
        self.turn = None
      self._pick()


class FaultFile(io.RawIOBase):

  def __init__(self, world, path, mode):
    super().__init__()
    self.opened = False
    self.world, self.path, self.mode = world, path, mode
    self.pos = 0

    def start():
      if 'x' in mode and path in world.files:
        raise FileExistsError(path)
      if 'w' in mode or 'x' in mode:
        world.files[path] = b''
      elif 'a' in mode:
        world.files.setdefault(path, b'')
      elif path not in world.files:
        raise FileNotFoundError(path)
    world.event('open', path, start)
    self.opened = True
    # The handle refers to the file, not the name: later moves carry it along.
    self.name = path

  def writable(self):
    return 'r' not in self.mode

  def readable(self):
    return 'r' in self.mode

  def readinto(self, b):
    data = self.world.files[self.path][self.pos:self.pos + len(b)]
    b[:len(data)] = data
    self.pos += len(data)
    return len(data)

  def write(self, data):
    data = bytes(data)
    h = (len(data) + 1) // 2
    for part in (data[:h], data[h:]):
      def eff(part=part):
        if self.path not in self.world.files:
          raise FileNotFoundError(self.path)
        self.world.files[self.path] += part
      self.world.event('write', self.path, eff)
    return len(data)

  def close(self):
    if not self.closed:
      super().close()
      if self.opened:
        self.world.event('close', self.path, lambda: None)


class FaultFS(fsspec.AbstractFileSystem):
  protocol = 'wbxfault'
  cachable = False
  world = None  # set by the test

  @classmethod
  def _strip_protocol(cls, path):
    if isinstance(path, list):
      return [cls._strip_protocol(p) for p in path]
    p = str(path)
    if p.startswith('wbxfault://'):
      p = p[len('wbxfault://'):]
    return p.strip('/')

  def _p(self, path):
    return self._strip_protocol(path)

  def makedirs(self, path, exist_ok=False):
    p = self._p(path)
    def eff():
      if p in self.world.dirs and not exist_ok:
        raise FileExistsError(p)
      self.world.dirs.add(p)
    self.world.event('makedirs', p, eff)

  def mkdir(self, path, create_parents=True, **kw):
    self.makedirs(path, exist_ok=False)

  def _open(self, path, mode='rb', **kw):
    return FaultFile(self.world, self._p(path), mode)

  def mv(self, path1, path2, **kw):
    a, b = self._p(path1), self._p(path2)
    def eff():
      if a not in self.world.files:
        raise FileNotFoundError(a)
      self.world.files[b] = self.world.files.pop(a)
    self.world.event('mv', a, eff)

  def cp_file(self, path1, path2, **kw):
    a, b = self._p(path1), self._p(path2)
    src = self.world.files.get(a)
    if src is None:
      raise FileNotFoundError(a)
    self.world.event('cp1', b, lambda: self.world.files.__setitem__(b, src[:len(src) // 2]))
    self.world.event('cp2', b, lambda: self.world.files.__setitem__(b, src))

  def pipe_file(self, path, value, mode='overwrite', **kw):
    with self._open(path, 'wb') as f:
      f.write(value)

  def put_file(self, lpath, rpath, **kw):
    with open(lpath, 'rb') as g, self._open(rpath, 'wb') as f:
      f.write(g.read())

  def touch(self, path, truncate=True, **kw):
    with self._open(path, 'wb' if truncate else 'ab'):
      pass

  def rm_file(self, path):
    p = self._p(path)
    def eff():
      if p not in self.world.files:
        raise FileNotFoundError(p)
      del self.world.files[p]
    self.world.event('rm', p, eff)

  _rm = rm_file

  def rm(self, path, recursive=False, maxdepth=None):
    for p in path if isinstance(path, list) else [path]:
      self.rm_file(p)

  def info(self, path, **kw):
    p = self._p(path)
    self.world.event('info', p, lambda: None)
    if p in self.world.files:
      return {'name': p, 'size': len(self.world.files[p]), 'type': 'file'}
    if p in self.world.dirs or p == '' or any(f.startswith(p + '/') for f in self.world.files):
      return {'name': p, 'size': 0, 'type': 'directory'}
    raise FileNotFoundError(p)

  def ls(self, path, detail=True, **kw):
    p = self._p(path)
    names = [f for f in self.world.files if f.rsplit('/', 1)[0] == p or f == p]
    out = [{'name': n, 'size': len(self.world.files[n]), 'type': 'file'} for n in names]
    return out if detail else names

  def created(self, path):
    return None


def install():
  fsspec.register_implementation('wbxfault', FaultFS, clobber=True)
