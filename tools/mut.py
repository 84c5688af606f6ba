"""Applies textual mutations to /repo one at a time, runs a check, reverts. Usage: mut.py PROP FILE <<< 'old => new' blocks separated by '---'."""
import subprocess, sys, os
prop, path = sys.argv[1], os.path.join('/repo/weatherbenchX', sys.argv[2])
orig = open(path).read()
for blk in sys.stdin.read().split('\n---\n'):
  old, new = blk.strip('\n').split(' => ')
  if orig.count(old) < 1:
    print('NOT FOUND', old); continue
  try:
    open(path, 'w').write(orig.replace(old, new, 1))
    p = subprocess.run(['bash', '/verif/check.sh', prop, 'quick'], capture_output=True, text=True, cwd='/verif', env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
  finally:
    open(path, 'w').write(orig)
  print({1: 'caught', 0: 'MISSED', 2: 'ERROR'}.get(p.returncode, p.returncode), '|', old.replace('\n', ' ')[:70], '=>', new.replace('\n', ' ')[:70], '|', [l[4:60] for l in (p.stdout + p.stderr).splitlines() if l.startswith('--- ')], flush=True)
