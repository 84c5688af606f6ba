"""Property-based verification harness for weatherbenchX."""
import glob as _glob
import os as _os
import sys as _sys
import tempfile as _tempfile


def _find_hypothesis():
  """Makes `hypothesis` importable in the venv of the code under test.

  The venv has no hypothesis; the tooling venv (same Python 3.12) does. Only the
  hypothesis packages are exposed (through a private directory of symlinks), so
  that numpy/xarray/... keep coming from the venv of the code under test.
  """
  try:
    import hypothesis  # pylint: disable=unused-import
    return
  except ImportError:
    pass
  sp = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
  d = _tempfile.mkdtemp(prefix='wbxv_hyp_')
  import atexit, shutil
  pid = _os.getpid()
  def _clean():
    if _os.getpid() == pid:
      shutil.rmtree(d, ignore_errors=True)
  atexit.register(_clean)
  if _os.path.isdir(sp + '/hypothesis'):
    for name in ('hypothesis', '_hypothesis_globals.py', '_hypothesis_ftz_detector.py', 'sortedcontainers'):
      if _os.path.exists(f'{sp}/{name}'):
        _os.symlink(f'{sp}/{name}', f'{d}/{name}')
    for so in _glob.glob(sp + '/_hypothesis*.so'):
      _os.symlink(so, f'{d}/{_os.path.basename(so)}')
  else:
    import zipfile
    for pat in ('hypothesis-*cp312*', 'sortedcontainers-*'):
      for w in _glob.glob('/opt/veriftools/wheels/' + pat):
        zipfile.ZipFile(w).extractall(d)
  _sys.path.append(d)
  import hypothesis  # noqa


_find_hypothesis()
