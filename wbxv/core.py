"""Registry, runner primitives and oracles' assertion helpers.

A *test* is a pair (strategy, check): the strategy draws a JSON-serialisable
`case`; `check(case, ctx)` runs the code under test on it and raises
`Violation` when the oracle disagrees. Because a case is plain data, a shrunk
case is its own replay file and is re-executed without Hypothesis.
"""
import dataclasses
import hashlib
import json
import os
import re
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')

REPO = os.path.realpath(os.environ.get('WBX_REPO', '/repo'))
HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


class Violation(Exception):
  """The oracle disagrees with the code under test."""


class Discard(Exception):
  """The generated case is outside the property's domain (counted)."""


class StopShrink(KeyboardInterrupt):
  """Ends a Hypothesis run from inside a test (shrink budget used up)."""


@dataclasses.dataclass
class Test:
  prop: str
  name: str
  strategy: object
  check: object
  quick: int
  thorough: int
  deterministic: bool = False


TESTS = {}  # prop -> list[Test]


def test(prop, strategy, quick, thorough=None, name=None):
  """Registers a generated-input test of a property."""
  def deco(f):
    t = Test(prop, name or f.__name__, strategy, f, quick, thorough or quick * 12)
    TESTS.setdefault(prop, []).append(t)
    return f
  return deco


class Ctx:
  """Per-case context: classification labels and the non-triviality flag."""

  def __init__(self):
    self.labels = set()
    self.nontrivial = False

  def label(self, *names):
    for n in names:
      self.labels.add(str(n))

  def nt(self, cond=True):
    """Marks the case non-trivial if cond."""
    if cond:
      self.nontrivial = True


def case_key(case) -> str:
  return json.dumps(case, sort_keys=True, default=str)


def case_hash(test_name, case) -> int:
  h = hashlib.blake2b((test_name + case_key(case)).encode(), digest_size=8)
  return int.from_bytes(h.digest(), 'big')


def from_code_under_test(exc) -> bool:
  """Whether the traceback (or a chained one) passes through the repository."""
  seen = set()
  while exc is not None and id(exc) not in seen:
    seen.add(id(exc))
    for fr in traceback.extract_tb(exc.__traceback__):
      fn = os.path.realpath(fr.filename)
      if fn.startswith(REPO + os.sep):
        return True
    exc = exc.__cause__ or exc.__context__
  return False


def unusable_result(exc) -> bool:
  """Whether a check failed while handling the values it got: wrong dimensions, labels, keys or types.

  Checks run without such errors on the results of a correct implementation. Errors that point at the check itself (names,
  attributes of modules and library objects, calls that do not bind, imports) stay harness errors.
  """
  frames = [os.path.realpath(fr.filename) for fr in traceback.extract_tb(exc.__traceback__)]
  mine = [f for f in frames if f.startswith(HERE + os.sep)]
  if not mine or not (mine[-1].startswith(os.path.join(HERE, 'checks') + os.sep) or mine[-1].endswith('/cmp.py')):
    return False
  if isinstance(exc, (AttributeError, TypeError)):
    return bool(re.search(r"'(DataArray|Dataset|DataTree|dict|NoneType|list|tuple|float|int|str)' object|NoneType|ufunc|unsupported operand", str(exc)))
  return isinstance(exc, (ValueError, KeyError, IndexError))


def run_case(t: Test, case) -> Ctx:
  """Runs one case; raises Violation / Discard; anything else is a harness error."""
  ctx = Ctx()
  # Case data may be mutated by nobody: give the check its own copy.
  case = json.loads(json.dumps(case))
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      t.check(case, ctx)
  except (Violation, Discard):
    raise
  except Exception as e:  # pylint: disable=broad-except
    if from_code_under_test(e):
      tb = traceback.format_exception(type(e), e, e.__traceback__)
      txt = ''.join(tb)
      raise Violation(
          'unexpected exception from the code under test on a valid input: '
          f'{type(e).__name__}: {str(e)[:500]}\n{txt[-3000:]}') from None
    if unusable_result(e):
      txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
      raise Violation(f'the result has another form than a correct one: {type(e).__name__}: {str(e)[:500]}\n{txt[-3000:]}') from None
    raise
  return ctx
