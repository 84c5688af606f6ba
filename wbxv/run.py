"""Entry point: `run P01 [tier]`, `run replay FILE`, `run selftest`, `run list`."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import re
import sys
import tempfile
import time
import traceback

from wbxv import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = int(os.environ.get('WBXV_WORKERS', '8'))
SHRINK_S = {'quick': 45.0, 'thorough': 180.0}
SLOW_S = float(os.environ.get('WBXV_SLOW_S', '30'))
BUDGET_S = {'quick': 330.0, 'thorough': 3300.0}


def load(prop):
  found = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'checks')))
           if f.lower().startswith(prop.lower() + '_') and f.endswith('.py')]
  if len(found) != 1:
    raise SystemExit(f'no unique check module for {prop}: {found}')
  return importlib.import_module('checks.' + found[0])


def known_findings():
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p):
    return []
  return json.load(open(p))['findings']


def mix(seed, *parts):
  import hashlib
  h = hashlib.blake2b(repr((seed,) + parts).encode(), digest_size=8)
  return int.from_bytes(h.digest(), 'big') & 0x7fffffffffff


def _make_body(t, st, tsum, res, t0, tier):
  listed = {core.case_key(k['case']) for k in known_findings()
            if k['property'] == t.prop and k['test'] == t.name}
  def body(case):
    now = time.time()
    if st['err'] is not None:
      return
    if listed and core.case_key(case) in listed:
      return  # Probed and reported separately, see check().
    if st['failing'] is None and now - t0 > BUDGET_S[tier]:
      res['skipped'] += 1
      return
    if st['first_fail'] is not None and now - st['first_fail'] > SHRINK_S[tier]:
      raise core.StopShrink()
    if st['failing'] is None:
      st['history'].append(case)
      del st['history'][:-400]
    try:
      ctx = core.run_case(t, case)
      if time.time() - now > SLOW_S:
        print(f'slow case: {t.name} {time.time() - now:.0f} s {core.case_key(case)}', file=sys.stderr)
    except core.Discard:
      res['discards'] += 1
      tsum['discarded'] += 1
      return
    except core.Violation as e:
      key = core.case_key(case)
      if st['first_fail'] is None:
        st['first_fail'] = now
      if st['failing'] is None or len(key) <= len(core.case_key(st['failing'])):
        st['failing'], st['msg'] = case, str(e)
      raise
    except Exception:
      st['err'] = (case, traceback.format_exc())
      return
    if st['failing'] is None:
      res['evals'] += 1
      tsum['evaluations'] += 1
      for l in ctx.labels:
        k = f'{t.name}:{l}'
        res['labels'][k] = res['labels'].get(k, 0) + 1
      if ctx.nontrivial:
        tsum['nontrivial'] += 1
        h = core.case_hash(t.name, case)
        if h not in res['nontrivial']:
          res['nontrivial'].add(h)
          if st['nsample'] < 1 and tsum['nontrivial'] >= 3:
            st['nsample'] += 1
            res['samples'].append(dict(test=t.name, case=case,
                                       labels=sorted(ctx.labels)))
  return body


def run_shard(prop, shard, nshards, tier, seed, t0, out_path):
  """Runs all tests of prop in one worker process; writes a pickle of results."""
  import gc
  import hypothesis
  from hypothesis import HealthCheck, Phase, settings
  tests = core.TESTS[prop]
  order = tests[shard % len(tests):] + tests[:shard % len(tests)]
  res = dict(evals=0, discards=0, nontrivial=set(), labels={}, samples=[],
             per_test={}, failures=[], errors=[], skipped=0)
  scale = float(os.environ.get('WBXV_SCALE', '1'))
  for t in order:
    total = max(1, int((t.quick if tier == 'quick' else t.thorough) * scale))
    n = total // nshards + (1 if shard < total % nshards else 0)
    if n == 0:
      continue
    st = dict(failing=None, msg=None, first_fail=None, history=[], count=0,
              t_start=time.time(), err=None, nsample=0)
    tsum = res['per_test'].setdefault(
        t.name, dict(evaluations=0, nontrivial=0, discarded=0, seconds=0.0))

    body = _make_body(t, st, tsum, res, t0, tier)
    s = settings(max_examples=n, database=None, deadline=None,
                 phases=(Phase.generate, Phase.shrink),
                 suppress_health_check=list(HealthCheck),
                 print_blob=False, report_multiple_bugs=False,
                 verbosity=hypothesis.Verbosity.quiet)
    fn = hypothesis.seed(mix(seed, prop, t.name, shard))(
        s(hypothesis.given(t.strategy)(body)))
    try:
      fn()
    except core.StopShrink:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      if st['failing'] is None and st['err'] is None:
        st['err'] = (None, traceback.format_exc())
    tsum['seconds'] += time.time() - st['t_start']
    if st['err'] is not None:
      res['errors'].append((t.name, st['err'][0], st['err'][1]))
    elif st['failing'] is not None:
      res['failures'].append(dict(
          test=t.name, case=st['failing'], msg=st['msg'],
          history=st['history'][:-1], shard=shard))
      break
    gc.collect()
  with open(out_path + '.tmp', 'wb') as f:
    pickle.dump(res, f)
  os.replace(out_path + '.tmp', out_path)


def _run_probe(t, case):
  try:
    core.run_case(t, case)
    return None
  except core.Discard:
    return None
  except core.Violation as e:
    return str(e)


def in_child(fn, *args, timeout=600):
  """Runs fn in a forked child (isolates module state); returns its result."""
  ctx = mp.get_context('fork')
  r, w = ctx.Pipe(False)
  def go():
    try:
      w.send(('ok', fn(*args)))
    except BaseException:  # pylint: disable=broad-except
      w.send(('err', traceback.format_exc()))
    os._exit(0)
  p = ctx.Process(target=go)
  p.start()
  w.close()
  try:
    if not r.poll(timeout):
      p.terminate()
      return ('timeout', None)
    out = r.recv()
  except EOFError:
    out = ('err', 'child died')
  p.join()
  return out


def probe_with_history(t, history, case):
  for h in history:
    try:
      core.run_case(t, h)
    except BaseException:  # pylint: disable=broad-except
      pass
  return _run_probe(t, case)


def check(prop, tier):
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  mod = load(prop)
  tests = core.TESTS[prop]
  by_name = {t.name: t for t in tests}
  tmp = tempfile.mkdtemp(prefix='wbxv_')
  os.environ['WBXV_TMP'] = tmp
  # Everything the code under test or its libraries leave in the temporary
  # directory (Beam leaves one directory per pipeline) goes away with this run.
  os.environ['TMPDIR'] = tmp
  tempfile.tempdir = tmp
  import shutil
  ctx = mp.get_context('fork')
  procs = []
  try:
    for i in range(NWORK):
      p = ctx.Process(target=run_shard, args=(
          prop, i, NWORK, tier, seed, t0, os.path.join(tmp, f'r{i}')))
      p.start()
      procs.append(p)
    for p in procs:
      p.join()
    results, errors = [], []
    for i, p in enumerate(procs):
      f = os.path.join(tmp, f'r{i}')
      if p.exitcode != 0 or not os.path.exists(f):
        errors.append(('worker', None, f'worker {i} exit code {p.exitcode}'))
      else:
        results.append(pickle.load(open(f, 'rb')))
    # Known findings: specific inputs recorded as genuine, unrepaired defects.
    known = []
    for k in known_findings():
      if k['property'] != prop:
        continue
      r = in_child(_run_probe, by_name[k['test']], k['case'])
      if r[0] != 'ok':
        errors.append(('known-finding', k['case'], str(r[1])))
      elif r[1] is not None:
        known.append((k, r[1]))
    failures = []
    for r in results:
      failures += r['failures']
      errors += r['errors']
    # Smallest failing case per test.
    best = {}
    for f in failures:
      b = best.get(f['test'])
      if b is None or len(core.case_key(f['case'])) < len(core.case_key(b['case'])):
        best[f['test']] = f
    confirmed = []
    known_keys = {(k['test'], core.case_key(k['case'])) for k, _ in known}
    for name, f in best.items():
      if (name, core.case_key(f['case'])) in known_keys:
        continue
      r = in_child(_run_probe, by_name[name], f['case'])
      f['standalone'] = r[0] == 'ok' and r[1] is not None
      confirmed.append(f)
  finally:
    tempfile.tempdir = None
    os.environ.pop('TMPDIR', None)
    shutil.rmtree(tmp, ignore_errors=True)
  evals = sum(r['evals'] for r in results)
  nontriv = set().union(*[r['nontrivial'] for r in results]) if results else set()
  labels, per_test = {}, {}
  for r in results:
    for k, v in r['labels'].items():
      labels[k] = labels.get(k, 0) + v
    for k, v in r['per_test'].items():
      d = per_test.setdefault(k, {})
      for kk, vv in v.items():
        d[kk] = round(d.get(kk, 0) + vv, 2)
  samples, seen = [], {}
  for r in results:
    for s in r['samples']:
      if seen.get(s['test'], 0) < 2:
        seen[s['test']] = seen.get(s['test'], 0) + 1
        samples.append(s)
  ev = dict(
      property=prop, tier=tier, seed=seed,
      level=getattr(mod, 'LEVEL', 'exploration'),
      coverage=dict(
          evaluations=evals, distinct_nontrivial=len(nontriv),
          rule=getattr(mod, 'RULE', ''), samples=samples[:24],
          discarded=sum(r['discards'] for r in results),
          skipped_for_time=sum(r['skipped'] for r in results),
          per_test=per_test, classes=dict(sorted(labels.items())),
          known_findings_seen=len(known)),
      assumptions=getattr(mod, 'ASSUMPTIONS', []),
      wall_s=round(time.time() - t0, 2), violations=len(confirmed))
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  for k, msg in known:
    print(f"KNOWN-FINDING: property={prop} {k['what']}")
  print(f'{prop} {tier} seed={seed}: {evals} cases, {len(nontriv)} distinct '
        f'non-trivial, {ev["coverage"]["discarded"]} discarded, '
        f'{ev["coverage"]["skipped_for_time"]} skipped, {ev["wall_s"]} s')
  if os.environ.get('WBXV_VERBOSE'):
    print(json.dumps(per_test, indent=1))
    print(json.dumps(ev['coverage']['classes'], indent=1))
  rc = 0
  for f in confirmed:
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}_{f['test']}.json")
    rep = dict(property=prop, test=f['test'], case=f['case'], message=f['msg'])
    if not f['standalone']:
      rep['history'] = f['history']
    with open(path, 'w') as fh:
      json.dump(rep, fh, indent=1, default=str)
    print(f"--- {prop} {f['test']}"
          f"{'' if f['standalone'] else ' (needs the recorded history of earlier cases)'}")
    print('case: ' + core.case_key(f['case'])[:3000])
    print(f['msg'][:3000])
    print(f'VIOLATION property={prop} replay={path}')
    rc = 1
  if errors:
    for name, case, tb in errors[:3]:
      print(f'HARNESS ERROR in {name}\ncase: {core.case_key(case)[:2000]}\n{tb}', file=sys.stderr)
    if rc == 0:
      rc = 2
  sys.stdout.flush()
  return rc


def replay(path):
  d = json.load(open(path))
  load(d['property'])
  t = {t.name: t for t in core.TESTS[d['property']]}[d['test']]
  msg = probe_with_history(t, d.get('history', []), d['case'])
  if msg is None:
    print('replay passes')
    return 0
  print(msg)
  print(f"VIOLATION property={d['property']} replay={path}")
  return 1


def selftest():
  import hypothesis, numpy, xarray, weatherbenchX  # noqa
  from weatherbenchX import aggregation  # noqa
  print('ok', hypothesis.__version__, xarray.__version__, weatherbenchX.__path__)
  return 0


def main(argv):
  if argv[0] == 'selftest':
    return selftest()
  if argv[0] == 'replay':
    return replay(argv[1])
  tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
  return check(argv[0], tier if tier in ('quick', 'thorough') else 'quick')


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
