"""Comparison helpers: by label, independent of dimension order."""
import numpy as np
import xarray as xr
from wbxv.core import Violation


def fail(msg):
  raise Violation(msg)


def check(cond, msg):
  if not cond:
    raise Violation(msg() if callable(msg) else msg)


def npclose(a, b, rtol=1e-9, atol=1e-9):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def same_np(a, b, what, rtol=1e-9, atol=1e-9):
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    fail(f'{what}: shapes differ: {a.shape} vs expected {b.shape}')
  if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
    if not npclose(a, b, rtol, atol):
      fail(f'{what}: got\n{a}\nexpected\n{b}')
  else:
    eq = (a == b)
    if a.dtype.kind in 'mM':
      eq = eq | (np.isnat(a) & np.isnat(b))
    if not np.all(eq):
      fail(f'{what}: got\n{a}\nexpected\n{b}')


def same_da(a, b, what, rtol=1e-9, atol=1e-9, coords='dims', sort=False):
  """a (observed) equals b (expected): dims as sets, coords by label, values.

  coords: 'dims' compares dimension coordinates of b; 'all' every coordinate of
  both; None none. sort: compare after sorting along common indexed dims.
  """
  if not isinstance(a, xr.DataArray):
    fail(f'{what}: expected a DataArray, got {type(a)}')
  if set(a.dims) != set(b.dims):
    fail(f'{what}: dims {a.dims} vs expected {b.dims}')
  a = a.transpose(*b.dims)
  if sort:
    for d in b.dims:
      if d in a.coords and d in b.coords:
        a, b = a.sortby(d), b.sortby(d)
  if dict(a.sizes) != dict(b.sizes):
    fail(f'{what}: sizes {dict(a.sizes)} vs expected {dict(b.sizes)}')
  if coords == 'dims':
    for d in b.dims:
      if d in b.coords:
        if d not in a.coords:
          fail(f'{what}: coordinate {d} missing')
        same_np(a[d].values, b[d].values, f'{what}: coordinate {d}')
  elif coords == 'all':
    if set(a.coords) != set(b.coords):
      fail(f'{what}: coordinates {sorted(map(str, a.coords))} vs expected {sorted(map(str, b.coords))}')
    for c in b.coords:
      if set(a[c].dims) != set(b[c].dims):
        fail(f'{what}: coordinate {c} dims {a[c].dims} vs {b[c].dims}')
      same_np(a[c].transpose(*b[c].dims).values, b[c].values, f'{what}: coordinate {c}')
  same_np(a.values, b.values, what, rtol, atol)


def same_mapping(a, b, what, **kw):
  if set(map(str, a)) != set(map(str, b)):
    fail(f'{what}: keys {sorted(map(str, a))} vs expected {sorted(map(str, b))}')
  for k in b:
    same_da(a[k], b[k], f'{what}[{k}]', **kw)


def same_nested(a, b, what, **kw):
  if set(map(str, a)) != set(map(str, b)):
    fail(f'{what}: keys {sorted(map(str, a))} vs expected {sorted(map(str, b))}')
  for k in b:
    same_mapping(a[k], b[k], f'{what}[{k}]', **kw)


def expect_raises(fn, exc, what):
  """fn() must raise exc (a documented rejection)."""
  try:
    r = fn()
  except exc:
    return
  fail(f'{what}: accepted, returned {str(r)[:300]}')
