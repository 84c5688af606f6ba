"""Confirms a planted bug in a private mount of a copy of /repo.

Usage: seed.py ID [--edits FILE] [--nocheck] [--check PROP...]
  --edits FILE: 'path' line, then 'old => new' blocks separated by '---' lines (several '=== path' sections allowed);
  writes seeded/ID/patch.diff from them. Then: builds, runs the stable tests, runs the demo with and without the
  patch and the property's quick check with it.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))


def ns(repo, work, cmd, **env):
  """Runs cmd with `repo` mounted on /repo."""
  e = dict(os.environ, TEST_TMPDIR=os.path.dirname(repo) + '/absl', **env)
  e.pop('PYTHONPATH', None)
  return subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {repo} /repo && mount --bind {work} /opt/vp/work && cd /repo && {cmd}'],
                        capture_output=True, text=True, env=e)


def main():
  a = argparse.ArgumentParser()
  a.add_argument('id'); a.add_argument('--edits'); a.add_argument('--nocheck', action='store_true'); a.add_argument('--notests', action='store_true')
  a.add_argument('--check', nargs='*')
  o = a.parse_args()
  d = f'{V}/seeded/{o.id}'
  tmp = tempfile.mkdtemp(prefix='seed_')
  repo, work = tmp + '/repo', tmp + '/work'
  os.mkdir(work); os.mkdir(tmp + '/absl')
  out = [o.id]
  try:
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    shutil.copytree(d, tmp + '/demo')
    if o.edits:
      for sec in open(o.edits).read().split('=== ')[1:]:
        path, body = sec.split('\n', 1)
        src = open(f'{repo}/{path.strip()}').read()
        for blk in body.split('\n---\n'):
          old, new = blk.strip('\n').split('\n=>\n')
          assert src.count(old) == 1, (src.count(old), old)
          src = src.replace(old, new)
        open(f'{repo}/{path.strip()}', 'w').write(src)
      diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
      open(d + '/patch.diff', 'w').write(diff)
      subprocess.run(['git', '-C', repo, 'checkout', '-q', '.'], check=True)
    demo = f'timeout 300 bash {tmp}/demo/demo.sh'
    r = ns(repo, work, demo)
    out.append('demo clean ' + ('ok' if r.returncode == 0 else f'FAILS\n{r.stdout[-800:]}{r.stderr[-800:]}'))
    subprocess.run(['git', '-C', repo, 'apply', d + '/patch.diff'], check=True)
    r = ns(repo, work, demo)
    out.append('demo patched ' + ('ok (fails)' if r.returncode else 'PASSES'))
    if not o.notests:
      r = ns(repo, work, f'bash /opt/vp/build.sh && bash /opt/vp/test.sh {tmp}/t.json')
      base = json.load(open('/opt/vp/BASELINE.json'))
      try:
        t = json.load(open(tmp + '/t.json'))
        get = lambda x: set(x.get('passed', x.get('stable', [])) if isinstance(x, dict) else x)
        lost = get(base) - get(t)
        out.append('tests ok' if not lost else f'tests LOST {sorted(lost)[:5]}')
      except FileNotFoundError:
        out.append('build/tests FAILED ' + r.stderr[-500:])
    if not o.nocheck:
      for prop in o.check or [json.load(open(d + '/meta.json'))['property']]:
        r = ns(repo, work, f'cd {V} && bash check.sh {prop} quick', VERIF_SEED='1', WBXV_EVIDENCE=tmp)
        out.append({0: f'{prop} MISSED', 1: f'{prop} caught'}.get(r.returncode, f'{prop} rc={r.returncode}') + ' ' + ' '.join(sorted({l[4:70] for l in (r.stdout + r.stderr).splitlines() if l.startswith('--- ')})))
  finally:
    shutil.rmtree(tmp)
  print(' | '.join(out), flush=True)


main()
