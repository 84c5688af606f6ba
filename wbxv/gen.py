"""Case generators (plain-data strategies) and deterministic data builders."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

seeds = st.integers(0, 2**20)
KINDS = ('normal', 'int', 'unif', 'wide')


def rng(seed):
  return np.random.Generator(np.random.PCG64(seed))


def array_spec(kinds=KINDS, nan=(0.0,), dtype=('float64',)):
  return st.fixed_dictionaries(dict(
      seed=seeds, kind=st.sampled_from(list(kinds)),
      nan=st.sampled_from(list(nan)), dtype=st.sampled_from(list(dtype))))


def build(shape, spec, salt=0):
  """Array determined by (shape, spec, salt) alone."""
  r = rng([spec['seed'], salt])
  k = spec['kind']
  n = int(np.prod(shape)) if len(shape) else 1
  if k == 'normal':
    x = r.normal(size=n) * 2 + 0.5
  elif k == 'int':
    x = r.integers(-3, 4, size=n).astype(float)
  elif k == 'posint':
    x = r.integers(0, 5, size=n).astype(float)
  elif k == 'unif':
    x = r.uniform(size=n)
  elif k == 'wide':
    x = r.normal(size=n) * 10.0 ** r.integers(-2, 4, size=n)
  elif k == 'binary':
    x = r.integers(0, 2, size=n).astype(float)
  elif k == 'mostly0':
    x = (r.uniform(size=n) < 0.15).astype(float)
  elif k == 'mostly1':
    x = (r.uniform(size=n) < 0.85).astype(float)
  elif k == 'zero':
    x = np.zeros(n)
  elif k == 'const':
    x = np.full(n, float(r.integers(-2, 3)))
  elif k == 'prob':
    x = r.integers(0, 9, size=n) / 8.0
  else:
    raise AssertionError(k)
  if spec.get('nan'):
    x = np.where(r.uniform(size=n) < spec['nan'], np.nan, x)
  return x.reshape(shape).astype(spec.get('dtype', 'float64'))


# ---------------------------------------------------------------- coordinates

@st.composite
def latitudes(draw, min_size=1, max_size=6, order=None):
  """Strictly monotonic latitudes, ascending or descending, uneven or even."""
  n = draw(st.integers(min_size, max_size))
  mode = draw(st.sampled_from(['even', 'uneven', 'global', 'tiny']))
  if mode == 'global' and n >= 2:
    lat = np.linspace(-90, 90, n)
  elif mode == 'even':
    step = draw(st.sampled_from([1, 5, 10, 12.5, 0.25]))
    start = draw(st.integers(-90, int(90 - step * (n - 1)))) if step * (n - 1) <= 180 else -90
    lat = start + step * np.arange(n)
  elif mode == 'tiny':
    lat = draw(st.integers(-80, 80)) + 0.25 * np.arange(n)
  else:
    pts = draw(st.lists(st.integers(-180, 180), min_size=n, max_size=n, unique=True))
    lat = np.sort(np.array(pts)) / 2.0
  lat = [float(x) for x in lat]
  desc = draw(st.booleans()) if order is None else order == 'desc'
  return lat[::-1] if desc else lat


@st.composite
def longitudes(draw, min_size=1, max_size=6, periodic=None):
  """Increasing longitudes in the 0..360 or -180..180 convention."""
  n = draw(st.integers(min_size, max_size))
  conv = draw(st.sampled_from([0, -180]))
  full = draw(st.booleans()) if periodic is None else periodic
  if full:
    return [float(conv + 360.0 * i / n) for i in range(n)]
  pts = draw(st.lists(st.integers(0, 719), min_size=n, max_size=n, unique=True))
  return [float(conv + x / 2.0) for x in sorted(pts)]


def times(n, start='2020-01-01', step_h=6):
  return (np.datetime64(start, 'ns')
          + (np.arange(n) * int(step_h * 3600)).astype('timedelta64[s]'))


def h2td(hours):
  return np.array([int(round(h * 3600)) for h in hours], 'timedelta64[s]').astype('timedelta64[ns]')


def h2dt(hours, base='2020-01-01'):
  return np.datetime64(base, 'ns') + h2td(hours)


def perm(draw, seq):
  return draw(st.permutations(list(seq)))
