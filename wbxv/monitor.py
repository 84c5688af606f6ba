"""Records what the library does to the objects it is given.

`installed()` wraps every public function and method of weatherbenchX (in this process). Each call that the harness
itself makes (not calls between library functions) is bracketed: every array, data set, mapping and sequence reachable
from its arguments - and from the constructor arguments of the library objects among them - is copied before and
compared afterwards. The calls are also kept so that they can be repeated later, after other calls on the same objects.
"""
import contextlib
import dataclasses
import datetime
import functools
import importlib
import inspect
import pkgutil
import shutil
import threading
import types

import numpy as np
import pandas as pd
import xarray as xr

from wbxv.core import Violation

SKIP_MODULES = ('_test', 'test_utils', 'metrics_test_utils', 'test_data', 'beam_')
NOT_REPEATED = ('weatherbenchX.statistical_inference.bootstrap',)
ATOMS = (str, bytes, int, float, complex, bool, type(None), np.generic, slice, datetime.date, datetime.timedelta, pd.Timestamp,
         pd.Timedelta, type, type(Ellipsis))


class Mutation(Violation):
  """An argument changed during a call."""


class State(threading.local):
  active = False
  depth = 0
  ctor = {}
  calls = []
  ncalls = 0


M = State()


def is_library(x):
  return type(x).__module__.startswith('weatherbenchX')


# ------------------------------------------------------------------ snapshots

class Opaque:
  """Marks a part that is not recorded."""

  def __repr__(self):
    return '<not recorded>'


OPAQUE = Opaque()


def _values(v):
  if not v._in_memory:
    return OPAQUE
  return np.array(v.values, copy=True)


def snap(x, memo=None, ctor=True):
  """Nested plain copy of everything reachable from x: ('tag', ...)."""
  memo = {} if memo is None else memo
  if isinstance(x, ATOMS):
    return ('atom', x)
  if id(x) in memo:
    return memo[id(x)][1]
  memo[id(x)] = (x, ('cycle',))
  r = _snap(x, memo, ctor)
  memo[id(x)] = (x, r)
  return r


def _snap(x, memo, ctor):
  if isinstance(x, xr.DataArray):
    return ('da', x.name, x.dims, _values(x.variable), dict(x.attrs),
            {k: (c.dims, _values(c.variable), dict(c.attrs)) for k, c in x.coords.items()})
  if isinstance(x, xr.Dataset):
    return ('ds', None, dict(x.sizes), None, dict(x.attrs),
            {k: (c.dims, _values(c), dict(c.attrs)) for k, c in x.variables.items()}, list(x.data_vars))
  if isinstance(x, np.ndarray):
    return ('np', x.copy())
  if isinstance(x, (pd.DataFrame, pd.Series, pd.Index)):
    return ('pd', x.copy())
  if isinstance(x, dict):
    return ('dict', [(k, snap(v, memo, ctor)) for k, v in x.items()])
  if isinstance(x, (list, tuple, set, frozenset)):
    seq = sorted(x, key=repr) if isinstance(x, (set, frozenset)) else x
    return (type(x).__name__, [snap(v, memo, ctor) for v in seq])
  if is_library(x):
    parts = []
    if dataclasses.is_dataclass(x):
      parts.append([(f.name, snap(getattr(x, f.name, None), memo, ctor)) for f in dataclasses.fields(x)])
    if ctor and id(x) in M.ctor:
      _, a, k = M.ctor[id(x)]
      parts.append([('arg', snap(a, memo, ctor)), ('kwarg', snap(k, memo, ctor))])
    return ('lib', type(x).__name__, parts)
  return ('opaque', type(x).__name__)


def _eq_arr(a, b, exact):
  if a is OPAQUE or b is OPAQUE:
    return True
  if a.shape != b.shape or a.dtype != b.dtype:
    return False
  if a.dtype.kind in 'fc':
    return np.array_equal(a, b, equal_nan=True) if exact else np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
  if a.dtype.kind in 'mM':
    return bool(np.all((a == b) | (np.isnat(a) & np.isnat(b))))
  if a.dtype.kind == 'O':
    return all(p is q or p == q or (p != p and q != q) for p, q in zip(a.ravel(), b.ravel()))
  return bool(np.array_equal(a, b))


def _attrs_eq(a, b):
  if list(a) != list(b):
    return False
  return all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) if isinstance(a[k], (np.ndarray, list)) else repr(a[k]) == repr(b[k]) for k in a)


def diff(a, b, path='', exact=True):
  """First difference between two snapshots, or None."""
  if a is b:
    return None
  if a[0] != b[0]:
    return f'{path}: {a[0]} became {b[0]}'
  t = a[0]
  if t == 'atom':
    same = a[1] is b[1] or a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])
    if not np.all(same) and not exact and isinstance(a[1], (float, np.floating)):
      same = np.isclose(a[1], b[1], rtol=1e-9)
    return None if np.all(same) else f'{path}: {a[1]!r} became {b[1]!r}'
  if t in ('da', 'ds'):
    if a[1] != b[1]:
      return f'{path}: name {a[1]!r} became {b[1]!r}'
    if a[2] != b[2]:
      return f'{path}: dims {a[2]} became {b[2]}'
    if t == 'ds' and a[6] != b[6]:
      return f'{path}: variables {a[6]} became {b[6]}'
    if not _attrs_eq(a[4], b[4]):
      return f'{path}: attributes {a[4]} became {b[4]}'
    if list(a[5]) != list(b[5]) and (exact or set(a[5]) != set(b[5])):
      return f'{path}: coordinates {list(a[5])} became {list(b[5])}'
    for k in a[5]:
      if a[5][k][0] != b[5][k][0]:
        return f'{path}[{k}]: dims {a[5][k][0]} became {b[5][k][0]}'
      if not _eq_arr(a[5][k][1], b[5][k][1], exact):
        return f'{path}[{k}]: values\n{a[5][k][1]}\nbecame\n{b[5][k][1]}'
      if not _attrs_eq(a[5][k][2], b[5][k][2]):
        return f'{path}[{k}]: attributes {a[5][k][2]} became {b[5][k][2]}'
    if a[3] is not None and not _eq_arr(a[3], b[3], exact):
      return f'{path}: values\n{a[3]}\nbecame\n{b[3]}'
    return None
  if t == 'np':
    return None if _eq_arr(a[1], b[1], exact) else f'{path}: values\n{a[1]}\nbecame\n{b[1]}'
  if t == 'pd':
    return None if a[1].equals(b[1]) else f'{path}: pandas object changed'
  if t == 'dict':
    ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
    if (ka != kb) if exact else (set(map(repr, ka)) != set(map(repr, kb))):
      return f'{path}: keys {ka} became {kb}'
    db = dict(b[1])
    for k, v in a[1]:
      d = diff(v, db[k], f'{path}[{k!r}]', exact)
      if d:
        return d
    return None
  if t in ('list', 'tuple', 'set', 'frozenset'):
    if len(a[1]) != len(b[1]):
      return f'{path}: length {len(a[1])} became {len(b[1])}'
    for i, (p, q) in enumerate(zip(a[1], b[1])):
      d = diff(p, q, f'{path}[{i}]', exact)
      if d:
        return d
    return None
  if t == 'lib':
    for p, q in zip(a[2], b[2]):
      for (k, v), (_, w) in zip(p, q):
        d = diff(v, w, f'{path}.{a[1]}.{k}', exact)
        if d:
          return d
  return None


def repeatable(x, seen=None):
  """Whether calling again with x means the same thing."""
  seen = set() if seen is None else seen
  if isinstance(x, (xr.DataArray, xr.Dataset)):
    vs = [x.variable] + [c.variable for c in x.coords.values()] if isinstance(x, xr.DataArray) else x.variables.values()
    return not any(type(v._data).__module__.startswith('jax') for v in vs)  # (traced arrays live for one trace)
  if isinstance(x, ATOMS) or isinstance(x, (np.ndarray, pd.DataFrame, pd.Series, pd.Index)):
    return True
  if id(x) in seen:
    return True
  seen.add(id(x))
  if isinstance(x, dict):
    return all(repeatable(v, seen) for v in x.values())
  if isinstance(x, (list, tuple, set, frozenset)):
    return all(repeatable(v, seen) for v in x)
  if is_library(x):
    ok = True
    if id(x) in M.ctor:
      _, a, k = M.ctor[id(x)]
      ok = repeatable(list(a), seen) and repeatable(k, seen)
    if dataclasses.is_dataclass(x):
      ok = ok and all(repeatable(getattr(x, f.name, None), seen) for f in dataclasses.fields(x))
    return ok and type(x).__module__ not in NOT_REPEATED
  return isinstance(x, (types.FunctionType, types.BuiltinFunctionType, np.ufunc))


def cells(x, seen=None):
  """The closure variables of every function reachable from x, with what they hold now: [(cell, content)]."""
  seen = set() if seen is None else seen
  if isinstance(x, ATOMS) or id(x) in seen:
    return []
  seen.add(id(x))
  if isinstance(x, types.FunctionType):
    out = []
    for c in x.__closure__ or ():
      try:
        v = c.cell_contents
      except ValueError:
        continue
      out += [(c, v)] + (cells(v, seen) if isinstance(v, types.FunctionType) else [])
    return out
  parts = []
  if isinstance(x, dict):
    parts = list(x.values())
  elif isinstance(x, (list, tuple, set, frozenset)):
    parts = list(x)
  elif is_library(x):
    parts = list(M.ctor[id(x)][1:]) if id(x) in M.ctor else []
    if dataclasses.is_dataclass(x):
      parts += [getattr(x, f.name, None) for f in dataclasses.fields(x)]
  return [c for p in parts for c in cells(p, seen)]


def rebound(recorded):
  """Whether a closure variable holds another object than when it was recorded: the function is then another function."""
  def other(c, v):
    try:
      return c.cell_contents is not v
    except ValueError:
      return True
  return any(other(c, v) for c, v in recorded)


def _tag(x, seen):
  """Gives the caller's arrays an attribute to lose."""
  if id(x) in seen or isinstance(x, ATOMS):
    return
  seen.add(id(x))
  if isinstance(x, xr.DataArray):
    x.attrs.setdefault('wbxv_note', 'set by the caller')
  elif isinstance(x, xr.Dataset):
    x.attrs.setdefault('wbxv_note', 'set by the caller')
    for v in x.data_vars.values():
      v.attrs.setdefault('wbxv_note', 'set by the caller')
  elif isinstance(x, dict):
    for v in x.values():
      _tag(v, seen)
  elif isinstance(x, (list, tuple)):
    for v in x:
      _tag(v, seen)
  elif is_library(x) and dataclasses.is_dataclass(x):
    for f in dataclasses.fields(x):
      _tag(getattr(x, f.name, None), seen)


def monitored(fn, label):
  @functools.wraps(fn)
  def wrapper(*args, **kwargs):
    if not M.active:
      return fn(*args, **kwargs)
    if M.depth:
      if fn.__name__ == '__init__':
        M.ctor.setdefault(id(args[0]), (args[0], args[1:], kwargs))
      return fn(*args, **kwargs)
    init = fn.__name__ == '__init__'
    given = args[1:] if init else args
    _tag([given, kwargs], set())
    if init:
      M.ctor.setdefault(id(args[0]), (args[0], args[1:], kwargs))
    before = snap([given, kwargs])
    M.depth += 1
    try:
      r = fn(*args, **kwargs)
    finally:
      M.depth -= 1
      d = diff(before, snap([given, kwargs]), 'arguments')
    if d:
      raise Mutation(f'{label} changed an object of its caller: {d}')
    M.ncalls += 1
    if not init and len(M.calls) < 12 and fn.__module__ not in NOT_REPEATED and repeatable([args, kwargs]):
      M.calls.append((fn, args, kwargs, before, snap(r, ctor=False), label, cells([args, kwargs])))
    return r
  wrapper.__wbxv__ = True
  return wrapper


def replay_calls(order):
  """Repeats the recorded calls; each must return what it did, if its arguments are still what they were."""
  n = 0
  for i in order:
    if i >= len(M.calls):
      continue
    fn, args, kwargs, before, result, label, closed = M.calls[i]
    if rebound(closed) or diff(before, snap([args, kwargs]), ''):
      continue  # the harness itself moved on
    M.depth += 1
    try:
      r = fn(*args, **kwargs)
    finally:
      M.depth -= 1
    d = diff(result, snap(r, ctor=False), 'result', exact=False)
    if d:
      raise Mutation(f'{label} gives another result when called again with the same objects: {d}')
    d = diff(before, snap([args, kwargs]), 'arguments')
    if d:
      raise Mutation(f'{label} changed an object of its caller when called again: {d}')
    n += 1
  return n


def library_modules():
  import weatherbenchX
  out = []
  for m in pkgutil.walk_packages(weatherbenchX.__path__, 'weatherbenchX.'):
    short = m.name.rsplit('.', 1)[-1]
    if any(short.endswith(s) or short.startswith(s) for s in SKIP_MODULES) or m.ispkg:
      continue
    out.append(importlib.import_module(m.name))
  return out


DUNDER = ('__init__', '__add__', '__radd__', '__call__', '__iter__')


def install():
  """Wraps the library in place (idempotent)."""
  for mod in library_modules():
    for name, x in list(vars(mod).items()):
      if getattr(x, '__module__', None) != mod.__name__:
        continue
      if isinstance(x, types.FunctionType) and not name.startswith('_') and not inspect.isgeneratorfunction(x):
        if not hasattr(x, '__wbxv__') and x.__name__ != '<lambda>':
          setattr(mod, name, monitored(x, f'{mod.__name__}.{name}'))
      elif isinstance(x, type):
        for an, a in list(vars(x).items()):
          if an.startswith('_') and an not in DUNDER:
            continue
          kind = type(a) if isinstance(a, (staticmethod, classmethod)) else None
          f = a.__func__ if kind else a
          if (not isinstance(f, types.FunctionType) or hasattr(f, '__wbxv__') or getattr(f, '__isabstractmethod__', False)
              or inspect.isgeneratorfunction(f)):
            continue
          w = monitored(f, f'{mod.__name__}.{x.__name__}.{an}')
          setattr(x, an, kind(w) if kind else w)


@contextlib.contextmanager
def recording():
  install()
  M.active, M.depth, M.ctor, M.calls, M.ncalls = True, 0, {}, [], 0
  # Scratch files are inputs too: keep them until the calls have been repeated.
  real, later = shutil.rmtree, []
  shutil.rmtree = lambda path, *a, **k: later.append(path)
  try:
    yield M
  finally:
    shutil.rmtree = real
    for path in later:
      real(path, ignore_errors=True)
    M.active, M.depth, M.ctor, M.calls = False, 0, {}, []
