#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [--sub REGEX]

Decides property ID on /repo's working tree. Exit 0: held on everything
explored. Exit 1 with a VIOLATION line: broken. Anything else: harness error.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
UNIT_TIMEOUT = {'quick': 700, 'thorough': 6 * 3600}
DEADLINE = {'quick': 810, 'thorough': 48 * 3600}  # of the whole run
CASE_CPU = {'quick': 200, 'thorough': 3600}  # processor seconds for one case
CASE_RSS = 12 << 30


def spec_of(prop, tier):
  """TARGETS and units, read in a fresh process (no code under test imported)."""
  import importlib
  mod = importlib.import_module('props.' + prop.lower())
  return (list(mod.TARGETS), mod.RULE, list(mod.subs(tier)),
          getattr(mod, 'prepare', None))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('--replay')
  ap.add_argument('--sub')
  ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED') or 1)
  t0 = time.time()
  from lib import build
  targets, rule, subs, prepare = spec_of(a.prop, a.tier)
  replay = None
  if a.replay:
    replay = json.load(open(a.replay))
    subs = [replay['sub']]
  elif a.sub:
    subs = [s for s in subs if re.search(a.sub, s)]
  files, log = build.build(targets)
  t_build = time.time() - t0
  scratch = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
  try:
    tree = build.make_tree(a.prop, files, scratch)
    env = dict(build.env_for(tree))
    env['VERIF_SEED'] = str(seed)
    if prepare:
      prepare(scratch, env, a.tier)

    done = []

    def unit(i_sub):
      i, sub = i_sub
      out = os.path.join(scratch, 'r%d.json' % i)
      cwd = os.path.join(scratch, 'w%d' % i)
      os.makedirs(cwd)
      e = dict(env, TEST_TMPDIR=cwd, TMPDIR=cwd)
      cmd = [PY, '-P', os.path.join(HERE, 'lib/pbt.py'), a.prop, sub, a.tier,
             str(seed), out] + ([os.path.abspath(a.replay)] if a.replay else [])
      left = DEADLINE[a.tier] - (time.time() - t0)
      found = any(r['violation'] for r in done)
      with open(os.path.join(scratch, 'l%d' % i), 'w') as log:
        if left < 5 or (found and time.time() - t0 > 240):
          rc, stuck = 'no time left', None
        else:
          rc, stuck = watch(cmd, e, cwd, log, out, min(left, UNIT_TIMEOUT[a.tier]),
                            CASE_CPU[a.tier])
      try:
        r = json.load(open(out))
      except (OSError, ValueError):
        tail = open(os.path.join(scratch, 'l%d' % i), errors='replace').read()[-3000:]
        r = {'sub': sub, 'error': 'unit ended with %s\n%s' % (rc, tail),
             'evals': 0, 'nontrivial': 0, 'classes': {}, 'samples': [],
             'violation': None, 'excluded': 0, 'checks': {}, 'slowest': 0}
        if stuck:
          r['error'], r['evals'] = None, stuck[0]
          r['violation'] = {'property': a.prop, 'sub': sub, 'check': stuck[1],
                            'case': stuck[2], 'message': 'the case does not end: ' + str(rc)}
        elif found:
          r['error'] = None
      done.append(r)
      return r

    with cf.ThreadPoolExecutor(a.jobs) as ex:
      results = list(ex.map(unit, enumerate(subs)))
    known_lines, known_err = ([], None) if a.replay or a.sub else known(
        a, scratch, env)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

  violations = [r['violation'] for r in results if r['violation']]
  errors = [(r['sub'], r['error']) for r in results if r['error']]
  if known_err:
    errors.append(('known findings', known_err))
  if not a.replay and not a.sub:
    evidence(a, seed, rule, results, violations, time.time() - t0, t_build)
  for line in known_lines:
    print(line)
  for v in violations:
    path = a.replay
    if not path:
      d = os.path.join(HERE, 'replays')
      os.makedirs(d, exist_ok=True)
      name = re.sub(r'[^A-Za-z0-9_.-]', '_', '%s-%s-%s' % (
          a.prop, v['sub'], v['check']))[:120]
      path = os.path.join('replays', name + '.json')
      with open(os.path.join(HERE, path), 'w') as f:
        json.dump(v, f, indent=1, ensure_ascii=False)
    print('%s %s/%s: %s\n  case: %s' % (
        a.prop, v['sub'], v['check'], v['message'],
        json.dumps(v['case'], ensure_ascii=False)[:1000]))
    print('VIOLATION property=%s replay=%s' % (a.prop, path))
  for sub, err in errors:
    print('HARNESS ERROR in %s/%s:\n%s' % (a.prop, sub, err))
  n = sum(r['evals'] for r in results)
  print('%s %s: %d units, %d cases, %d non-trivial, %d violations; build %.0f s, total %.0f s' % (
      a.prop, a.tier, len(results), n, sum(r['nontrivial'] for r in results),
      len(violations), t_build, time.time() - t0), flush=True)
  if violations:
    return 1
  return 3 if errors else 0


def watch(cmd, env, cwd, log, out, limit, case_cpu):
  """Runs a unit. (how it ended, the case that does not end or None)"""
  p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                       stdout=log, stderr=subprocess.STDOUT)
  end = time.time() + limit
  seen, since, pause = None, 0, 0.01
  try:
    while True:
      try:
        return p.wait(pause), None
      except subprocess.TimeoutExpired:
        pause = min(1, pause * 2)
      if time.time() > end:
        return 'timeout', None
      try:
        f = open('/proc/%d/stat' % p.pid).read().rsplit(')', 1)[1].split()
        cpu = (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
        rss = int(f[21]) * os.sysconf('SC_PAGE_SIZE')
        text = open(out + '.now', 'rb').read()
        case = json.loads(text[1:]) if text[:1] == b'R' else None
      except (OSError, ValueError, IndexError):
        continue
      if case is None or case[0] != seen:
        seen, since = case and case[0], cpu
      elif cpu - since > case_cpu:
        return '%d s of processor time' % (cpu - since), case
      elif rss > CASE_RSS:
        return '%d MB of memory' % (rss >> 20), case
  finally:
    if p.poll() is None:
      p.kill()
      p.wait()


def known(a, scratch, env):
  """Replays the listed findings of this property, one line each."""
  lines = []
  path = os.path.join(HERE, 'known_findings.jsonl')
  if not os.path.exists(path):
    return lines, None
  for i, line in enumerate(open(path)):
    if not line.strip().startswith('{'):
      continue
    f = json.loads(line)
    if f['property'] != a.prop:
      continue
    rp = os.path.join(scratch, 'k%d.json' % i)
    out = os.path.join(scratch, 'ko%d.json' % i)
    json.dump(f, open(rp, 'w'))
    cwd = os.path.join(scratch, 'kw%d' % i)
    os.makedirs(cwd)
    subprocess.run([PY, '-P', os.path.join(HERE, 'lib/pbt.py'), a.prop, f['sub'],
                    a.tier, '1', out, rp], env=dict(env, TEST_TMPDIR=cwd, TMPDIR=cwd),
                   cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, timeout=600)
    try:
      r = json.load(open(out))
    except (OSError, ValueError):
      return lines, 'known finding %d could not be replayed' % i
    if r['error']:
      return lines, r['error']
    if r['violation']:
      lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
  return lines, None


def evidence(a, seed, rule, results, violations, wall, t_build):
  classes, checks, samples = {}, {}, []
  for r in results:
    for k, v in r['classes'].items():
      classes[k] = classes.get(k, 0) + v
    for k, v in r['checks'].items():
      c = checks.setdefault(k, {'cases': 0, 'kind': v['kind'], 'units': 0})
      c['cases'] += v['cases']
      c['units'] += 1
    samples += r['samples'][-2:]
  step = max(1, len(samples) // 12)
  e = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
       'coverage': {
           'evaluations': sum(r['evals'] for r in results),
           'distinct_nontrivial': sum(r['nontrivial'] for r in results),
           'rule': rule, 'samples': samples[::step][:14] or ['none'],
           'units': [r['sub'] for r in results],
           'checks': checks, 'classes': classes,
           'excluded_known_or_out_of_domain': sum(r['excluded'] for r in results),
           'errors': sum(1 for r in results if r['error']),
           'slowest_case_cpu_s': max(r['slowest'] for r in results),
           'build_s': round(t_build, 1)},
       'wall_s': round(wall, 1), 'violations': len(violations)}
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
    json.dump(e, f, indent=1, ensure_ascii=False)


if __name__ == '__main__':
  try:
    sys.exit(main())
  except SystemExit:
    raise
  except BaseException:  # pylint: disable=broad-except
    import traceback
    traceback.print_exc()
    sys.exit(4)
