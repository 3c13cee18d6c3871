"""The property-testing core: Hypothesis driver, counters, replay, violations.

A property module (props/<id>.py) defines

  TARGETS  labels whose runtime files the check needs (lib/build.py builds them)
  RULE     one paragraph: how cases are made and what makes one non-trivial
  subs(tier) -> [name, ...]          independent units, run in parallel processes
  run(ctx)                           runs unit ctx.sub through ctx.check/ctx.enum

Every case is plain JSON data, so a shrunk failing case *is* the replay file.
"""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 40


class Violation(AssertionError):
  """The property is broken on this case."""


class Excluded(Exception):
  """The case is a listed known finding (or outside the domain): not judged."""


def fail(msg, **kw):
  if kw:
    msg += ' | ' + ', '.join('%s=%s' % (k, show(v)) for k, v in kw.items())
  raise Violation(msg)


def show(v, limit=400):
  if isinstance(v, str):
    s = '%s [%s]' % (json.dumps(v, ensure_ascii=False),
                     ' '.join('%04X' % ord(c) for c in v[:40]))
  else:
    s = repr(v)
  return s if len(s) <= limit else s[:limit] + '...'


def eq(got, want, what, **kw):
  if got != want:
    fail(what, got=got, want=want, **kw)


@contextlib.contextmanager
def sut(what='code under test', allow=()):
  """An exception raised by the code under test is a violation."""
  try:
    yield
  except (Violation, Excluded):
    raise
  except allow:
    raise
  except Exception as e:  # pylint: disable=broad-except
    raise Violation('%s raised %s: %s' % (
        what, type(e).__name__, str(e)[:300])) from e


def from_sut(e, in_case=False):
  """Whether the exception comes out of the code under test (or a library it called).

  So does one about the shape of an answer (or None), in a check: the checks raise none
  on answers of the documented shape. A name that is missing from a module is none.
  """
  if isinstance(e, (AttributeError, TypeError)) and "'NoneType'" in str(e):
    return True
  if isinstance(e, AttributeError) and str(e).startswith('module '):
    return False
  if in_case and isinstance(e, (AttributeError, TypeError, ValueError, LookupError)):
    return True
  own = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
  last = None
  for frame, _ in traceback.walk_tb(e.__traceback__):
    name = frame.f_code.co_filename
    if '/com_google_nisaba/nisaba/' in name:
      last = True
    elif name.startswith(own):
      last = False
  return bool(last) and not isinstance(e, MemoryError)


def raises(exc, fn, *args, **kw):
  """True if fn raises exc; any other exception is a violation."""
  try:
    fn(*args, **kw)
  except exc:
    return True
  except Exception as e:  # pylint: disable=broad-except
    fail('raised %s (%s) instead of %s' % (
        type(e).__name__, str(e)[:200], exc.__name__))
  return False


def subseed(seed, *names):
  h = hashlib.sha256(repr((seed,) + names).encode()).digest()
  return int.from_bytes(h[:8], 'big')


def digest(case):
  return hashlib.sha256(
      json.dumps(case, sort_keys=True, ensure_ascii=True).encode()).digest()[:8]


class Stop(Exception):
  """A violation was recorded: the unit ends."""


class Ctx:

  def __init__(self, prop, sub, tier, seed, known, replay=None, scratch=None):
    self.prop, self.sub, self.tier, self.seed = prop, sub, tier, seed
    self.known = known            # known findings: {(check, digest)}
    self.replay = replay          # {'check':..., 'case':...} or None
    self.scratch = scratch
    self.evals = 0
    self.nontrivial = set()
    self.classes = {}
    self.samples = []
    self.violation = None
    self.excluded = 0
    self.checks = {}
    self._keep = 0
    self.schedules = False        # the outcome may depend on the schedule
    self.now = None               # where run.py reads which case is being run
    self.slowest = 0
    self.history = []             # the cases of this check so far

  @property
  def thorough(self):
    return self.tier == 'thorough'

  def n(self, quick, thorough=None):
    return (thorough or quick * 10) if self.thorough else quick

  def label(self, name):
    self.classes[name] = self.classes.get(name, 0) + 1

  # A check function returns truthy when the case was non-trivial.
  def _one(self, check, fn, case):
    self.evals += 1
    self.history.append(case)
    if self.now is not None:
      text = b'R' + json.dumps([self.evals, check, case]).encode()
      os.pwrite(self.now, text, 0)
      os.ftruncate(self.now, len(text))
    t0 = time.process_time()
    try:
      nt = fn(case)
    except Excluded:
      self.excluded += 1
      return
    except Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if isinstance(e, hypothesis.errors.HypothesisException) or not from_sut(
          e, in_case=True):
        raise
      raise Violation('raised %s: %s' % (type(e).__name__, str(e)[:300])) from e
    finally:
      self.slowest = max(self.slowest, time.process_time() - t0)
      if self.now is not None:
        os.pwrite(self.now, b'I', 0)
    if nt:
      d = digest([check, case])
      if d not in self.nontrivial:
        self.nontrivial.add(d)
        # Keep samples at exponentially spaced positions.
        k = len(self.nontrivial)
        if len(self.samples) < 4 and k >= (1, 10, 100, 1000)[len(self.samples)]:
          self.samples.append({'unit': self.sub, 'check': check, 'case': case})

  def _record(self, check, case, msg, history=None):
    self.violation = {'property': self.prop, 'sub': self.sub, 'check': check,
                      'case': case, 'message': msg}
    if history:
      self.violation['history'] = history
    raise Stop()

  def _known(self, check, case):
    return (self.sub, check, digest(case)) in self.known

  def _start(self, check):
    """False if this check is not the one being replayed."""
    if self.replay is None:
      return True
    return self.replay['check'] == check

  def enum(self, check, cases, fn):
    """Every case of an enumeration; shrinking is by enumeration order."""
    if not self._start(check):
      return
    if self.replay is not None:
      return self._replay(check, fn)
    t0, n0 = time.time(), self.evals
    self.history = []
    for case in cases:
      if self._known(check, case):
        self.excluded += 1
        continue
      try:
        self._one(check, fn, case)
      except Violation as e:
        self._record(check, case, str(e))
    self.checks[check] = {'cases': self.evals - n0, 'kind': 'enumeration',
                          's': round(time.time() - t0, 1)}

  def check(self, check, strategy, fn, n):
    """n generated cases; a failure is shrunk."""
    if not self._start(check):
      return
    if self.replay is not None:
      return self._replay(check, fn)
    last = {}
    t0, n0 = time.time(), self.evals
    self.history = []

    def body(case):
      if self._known(check, case):
        self.excluded += 1
        return
      try:
        self._one(check, fn, case)
      except Violation as e:
        last['case'], last['msg'] = case, str(e)
        last.setdefault('history', self.history[:-1])
        last.setdefault('first', (case, str(e)))
        raise

    test = hypothesis.given(strategy)(body)
    test = hypothesis.settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(hypothesis.HealthCheck),
        phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink])(test)
    test = hypothesis.seed(subseed(self.seed, self.prop, self.sub, check))(test)
    try:
      test()
    except Violation as e:
      self._record(check, last['case'], last['msg'])
    except hypothesis.errors.Flaky:
      # The case failed once: does it fail again?
      for _ in range(5):
        try:
          fn(last['case'])
        except Violation as e:
          self._record(check, last['case'], str(e))
      if self.schedules:  # It depends on the schedule; seen once is enough.
        self._record(check, last['case'], last['msg'])
      # It depends on what was run before: the replay file holds that too.
      case, msg = last['first']
      self._record(check, case, 'after %d other cases: %s' % (len(last['history']), msg),
                   last['history'])
    self.checks[check] = {'cases': self.evals - n0, 'kind': 'generated',
                          's': round(time.time() - t0, 1)}

  def _replay(self, check, fn):
    case = self.replay['case']
    for c in self.replay.get('history', []):
      try:
        self._one(check, fn, c)
      except Violation:
        pass
    try:
      self._one(check, fn, case)
    except Violation as e:
      self._record(check, case, str(e))

  def result(self):
    return {'sub': self.sub, 'evals': self.evals,
            'nontrivial': len(self.nontrivial), 'classes': self.classes,
            'samples': self.samples, 'violation': self.violation,
            'excluded': self.excluded, 'checks': self.checks,
            'slowest': round(self.slowest, 2)}


def worker_main(argv):
  """worker: PROP SUB TIER SEED RESULT [REPLAY]; its environment is a runfiles tree."""
  prop, sub, tier, seed, out = argv[:5]
  replay = json.load(open(argv[5])) if len(argv) > 5 else None
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  sys.path.insert(0, here)
  sys.setrecursionlimit(10000)
  import importlib
  import warnings
  warnings.simplefilter('ignore')
  known = set()
  if replay is None:
    kf = os.path.join(here, 'known_findings.jsonl')
    if os.path.exists(kf):
      for line in open(kf):
        if line.strip().startswith('{'):
          f = json.loads(line)
          if f['property'] == prop:
            known.add((f['sub'], f['check'], digest(f['case'])))
  mod = importlib.import_module('props.' + prop.lower())
  ctx = Ctx(prop, sub, tier, int(seed), known, replay, os.environ.get('TEST_TMPDIR'))
  ctx.now = os.open(out + '.now', os.O_CREAT | os.O_RDWR)
  err = None
  try:
    mod.run(ctx)
  except Stop:
    pass
  except Exception as e:  # pylint: disable=broad-except
    err = traceback.format_exc()[-6000:]
    if from_sut(e):
      ctx.violation = {'property': prop, 'sub': sub, 'check': 'set-up', 'case': None,
                       'message': 'raised %s: %s' % (type(e).__name__, str(e)[:300])}
      err = None
  r = ctx.result()
  r['error'] = err
  if replay is not None and ctx.evals == 0 and not err and not ctx.violation:
    r['error'] = 'replay file names no check of this property'
  with open(out, 'w') as f:
    json.dump(r, f)


if __name__ == '__main__':
  # Imported under its real name, so that there is one Violation class.
  sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
  from lib import pbt
  pbt.worker_main(sys.argv[1:])
