"""A Beam runner that executes a pipeline in process under a generated schedule.

Beam promises little: elements of a collection have no order, they are processed in arbitrary bundles on copies of the
DoFns, bundles may be abandoned half-way and run again, grouped values come in any order, and combiners merge partial
accumulators in any tree. This runner picks one such execution per seed. Primitive transforms it does not know raise
`Unsupported` (the caller then uses Beam's own runner).
"""
import pickle

import apache_beam as beam
from apache_beam.internal import pickler
from apache_beam.options.pipeline_options import PipelineOptions
from apache_beam.runners.runner import PipelineResult, PipelineRunner, PipelineState
from apache_beam.transforms.window import GlobalWindow, TimestampedValue
import numpy as np


class Unsupported(Exception):
  """A transform this runner does not model."""


class Done(PipelineResult):
  def __init__(self):
    super().__init__(PipelineState.DONE)

  def wait_until_finish(self, duration=None):
    return PipelineState.DONE


class Chaos(PipelineRunner):
  """One generated execution."""

  def __init__(self, seed, bundle=3, retry=0.2, copy=True):
    self.r = np.random.Generator(np.random.PCG64(seed))
    self.bundle, self.retry, self.copy = bundle, retry, copy
    self.stats = dict(bundles=0, retries=0, merges=0, abandoned=0)

  def is_fnapi_compatible(self):
    return False

  def run_pipeline(self, pipeline, options):
    self.v = {}
    self.run_node(pipeline._root_transform())  # pylint: disable=protected-access
    return Done()

  # ------------------------------------------------------------- helpers

  def shuffled(self, xs):
    xs = list(xs)
    return [xs[i] for i in self.r.permutation(len(xs))]

  def shipped(self, x):
    """Elements between stages may have been serialised."""
    return pickle.loads(pickle.dumps(x, protocol=pickle.HIGHEST_PROTOCOL)) if self.copy and self.r.random() < 0.5 else x

  def bundles(self, xs):
    xs, out = self.shuffled(xs), []
    while xs:
      n = int(self.r.integers(1, self.bundle + 1))
      out.append(xs[:n])
      xs = xs[n:]
    return out

  def inputs(self, node):
    return [x for p in node.inputs for x in self.v[p]]

  def set(self, node, values):
    for p in node.outputs.values():
      self.v[p] = values

  # ------------------------------------------------------------- transforms

  def run_node(self, node):
    t = node.transform
    if isinstance(t, beam.Create):
      self.set(node, list(t.values))
    elif isinstance(t, beam.Reshuffle):
      self.set(node, [self.shipped(x) for x in self.inputs(node)])
    elif isinstance(t, beam.CombinePerKey):
      if t.args or t.kwargs:
        raise Unsupported('combiner arguments')
      self.set(node, [(k, self.combine(t.fn, vs)) for k, vs in self.group(self.inputs(node))])
    elif isinstance(t, beam.CombineGlobally):
      raise Unsupported('CombineGlobally')
    elif isinstance(t, beam.GroupByKey):
      self.set(node, self.group(self.inputs(node)))
    elif isinstance(t, beam.Flatten):
      self.set(node, self.inputs(node))
    elif isinstance(t, beam.ParDo):
      self.pardo(node, t)
    elif node.parts:
      for p in node.parts:
        self.run_node(p)
    elif t is not None and not all(p in self.v for p in node.outputs.values()):
      raise Unsupported(str(t))

  def group(self, pairs):
    groups = []
    index = {}
    for k, v in self.shuffled(pairs):
      k = self.shipped(k)
      if k not in index:
        index[k] = len(groups)
        groups.append((k, []))
      groups[index[k]][1].append(self.shipped(v))
    return self.shuffled(groups)

  def combine(self, fn, values):
    """Any split into accumulators, some of them empty, merged in any tree."""
    fn = pickler.loads(pickler.dumps(fn)) if self.copy else fn
    accs = [] if self.r.random() < 0.7 else [fn.create_accumulator()]
    for b in self.bundles(values):
      acc = fn.create_accumulator()
      for v in b:
        acc = fn.add_input(acc, v)
      accs.append(self.shipped(acc))
    accs = self.shuffled(accs)
    while len(accs) > 1:
      n = int(self.r.integers(2, min(len(accs), 3) + 1))
      self.stats['merges'] += 1
      accs = self.shuffled([self.shipped(fn.merge_accumulators(iter(accs[:n])))] + accs[n:])
    if not accs:
      accs = [fn.create_accumulator()]
    return fn.extract_output(accs[0])

  def pardo(self, node, t):
    if node.side_inputs:
      raise Unsupported('side inputs')
    values = self.inputs(node)
    out = {tag: [] for tag in node.outputs}
    for b in self.bundles(values):
      attempts = 1
      while self.r.random() < self.retry and attempts < 3:
        attempts += 1
      for a in range(attempts):
        self.stats['bundles'] += 1
        self.stats['retries'] += a > 0
        got = self.run_bundle(t.fn, b, a < attempts - 1, t.args, t.kwargs)
      for tag, x in got:
        if tag in out:
          out[tag].append(x)
    for tag, p in node.outputs.items():
      self.v[p] = out[tag]

  def run_bundle(self, fn, elements, abandon, args=(), kwargs={}):
    """The last attempt counts; earlier ones stop at a random output."""
    fn = pickler.loads(pickler.dumps(fn)) if self.copy else fn
    stop = int(self.r.integers(0, 6)) if abandon and self.r.random() < 0.7 else None
    got = []
    fn.setup()
    fn.start_bundle()
    for x in elements:
      res = fn.process(x, *args, **kwargs)
      for y in res if res is not None else ():
        tag = None
        if isinstance(y, beam.pvalue.TaggedOutput):
          tag, y = y.tag, y.value
        if isinstance(y, TimestampedValue):
          y = y.value
        got.append((tag, y))
        if stop is not None and len(got) >= stop:
          self.stats['abandoned'] += 1
          return got
    for y in fn.finish_bundle() or ():
      got.append((None, getattr(y, 'value', y)))
    fn.teardown()
    return got


def run(define, seed, bundle=3, retry=0.2):
  """define(root) builds the pipeline. Runs it on the chaos runner; True if that runner could run it."""
  runner = Chaos(seed, bundle, retry)
  try:
    p = beam.Pipeline(runner=runner, options=PipelineOptions([]))
    define(p)
    runner.run_pipeline(p, None)
    return runner
  except Unsupported:
    return None


def run_real(define):
  """Beam's own in-memory runner."""
  with beam.Pipeline(runner='FnApiRunner', options=PipelineOptions([])) as p:
    define(p)
