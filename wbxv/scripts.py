"""Loads command-line scripts of the repository with flags of their own, so that main() can be called in process."""
import contextlib
import importlib.util
import io
import os

from absl import flags

from wbxv.core import REPO

_LOADED = {}


class Script:
  """A loaded script; `run` sets its flags (all others to their defaults) and calls main."""

  def __init__(self, path):
    self.fv = flags.FlagValues()
    saved = {}
    for name in dir(flags):
      f = getattr(flags, name)
      if name.startswith('DEFINE') and callable(f):
        saved[name] = f

    def private(f):
      def define(*a, **k):
        k.setdefault('flag_values', self.fv)
        return f(*a, **k)
      return define
    try:
      for name, f in saved.items():
        setattr(flags, name, private(f))
      spec = importlib.util.spec_from_file_location('wbx_script_' + os.path.basename(path)[:-3], os.path.join(REPO, path))
      self.module = importlib.util.module_from_spec(spec)
      spec.loader.exec_module(self.module)
    finally:
      for name, f in saved.items():
        setattr(flags, name, f)

  def run(self, args, objects=(), argv=('script',)):
    """args: command-line strings; objects: flag values that are not strings (a runner)."""
    self.fv.unparse_flags()
    for name in self.fv:
      self.fv[name].unparse()
    self.fv(['script', *args])
    for k, v in dict(objects).items():
      self.fv[k].value = v
    with contextlib.redirect_stdout(io.StringIO()):
      self.module.main(list(argv))


def load(path):
  if path not in _LOADED:
    _LOADED[path] = Script(path)
  return _LOADED[path]
