"""C04: error rates and pairwise edits."""
import json
import math
import os
import re

from lib import cc
from lib.pbt import eq, fail, st

TARGETS = []
RULE = (
    'The C++ source is compiled from the working tree with address and undefined-behaviour '
    'sanitizers. Cases: generated files of references (with counts) and hypotheses (with negative '
    'log probabilities, up to thousands), several per item, in any line order, with items left out, '
    'related by random edits, with blanks, quotation marks and multi-byte characters; characters '
    'or words; the calculator used once or twice. Oracle: dynamic-programming edit distance, exact '
    'choice of the best reference, normalized probabilities. Non-trivial: an item has several '
    'references at different distances or several hypotheses.')


def prepare(scratch, env, tier):
  env['CC_BIN'] = cc.build(scratch, 'rates', [
      'nisaba/translit/tools/calculate_error_rate.cc', 'nisaba/port/file_util.cc',
      'nisaba/port/utf8_delimiters.cc', 'nisaba/port/unicode_properties.cc',
      'nisaba/port/utf8_util.cc'])


def subs(tier):
  return ['min0', 'min1', 'pair0', 'pair1', 'tokens', 'refuse']


def distance(a, b):
  row = list(range(len(b) + 1))
  for i, x in enumerate(a, 1):
    prev, row[0] = row[0], i
    for j, y in enumerate(b, 1):
      prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
  return row[-1]




def tokens(text, chars):
  words = re.split('[ \x0b\x0c\r\x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+', text)
  words = [w for w in words if w]
  return list(' '.join(words)) if chars else words


CHARS = st.sampled_from(['a', 'b', 'c', ' ', ' ', 'अ', 'é', '"', '\x01', '\\', '\u3000', '\xa0', '𑄇', '/', ',', '{'])


@st.composite
def text(draw, base=None, blank=False):
  if base is not None and draw(st.booleans()):
    t = list(base)
    for _ in range(draw(st.integers(0, 3))):
      i = draw(st.integers(0, len(t)))
      if draw(st.booleans()) and i < len(t):
        del t[i]
      else:
        t.insert(i, draw(CHARS))
    t = ''.join(t)
  else:
    t = draw(st.lists(CHARS, max_size=8).map(''.join))
  if not blank and not tokens(t, True):
    t += 'x'
  return t


COST = st.one_of(st.none(), st.sampled_from([0.0, 0.5, 1.0, 1.25, 2.0, -1.0]),
                 st.floats(0, 12).map(lambda x: round(x, 3)), st.sampled_from([800.0, 801.0, 2500.5]))


@st.composite
def files(draw):
  """[[idx, text, value or None], ...] of references and of hypotheses."""
  refs, tests = [], []
  n = draw(st.integers(1, 4))
  for i in range(n):
    last = i == n - 1
    kind = draw(st.sampled_from(['both'] * 6 + ([] if last else ['nothing', 'noref'])))
    if kind == 'nothing':
      continue
    base = draw(text())
    refs.append([i, base, draw(st.one_of(st.none(), st.integers(1, 9), st.just(0.5)))])
    for _ in range(draw(st.integers(0, 2))):
      refs.append([i, draw(text(base)), draw(st.one_of(st.none(), st.integers(1, 9)))])
    if kind == 'noref':
      continue
    for _ in range(draw(st.integers(1, 3))):
      tests.append([i, draw(text(base, blank=True)), draw(COST)])
  return [draw(st.permutations(refs)), draw(st.permutations(tests))]


def write(name, rows):
  name = os.path.join(os.environ['TMPDIR'], name)
  with open(name, 'w', encoding='utf8', newline='') as f:
    for i, t, v in rows:
      if v is None and not t:
        v = 0
      f.write('%d\t%s%s\n' % (i, t, '' if v is None else '\t%s' % v))
  return name


def grouped(rows, default):
  out = {}
  for i, t, v in rows:
    out.setdefault(i, []).append((t, default if v is None else v))
  return out


def calculate(p, case, pairwise):
  first, now, chars, again = case
  out = os.path.join(os.environ['TMPDIR'], 'out')
  if os.path.exists(out):
    os.unlink(out)
  names = [write('r1', first[0]), write('t1', first[1])] if again else []
  names += [write('r2', now[0]), write('t2', now[1])]
  r = p.ok('rate', int(chars), int(pairwise), out, *names)
  with open(out, encoding='utf8', newline='') as f:
    return float(r[0]), f.read()


def run(ctx):
  p = cc.Proc(os.environ['CC_BIN'])
  try:
    globals()['run_' + ctx.sub.rstrip('01')](ctx, p)
  finally:
    p.close()


CASE = st.tuples(files(), files(), st.booleans(), st.booleans()).map(list)
LINE = re.compile(r'reference length=(\S+) substitutions=(\S+) deletions=(\S+) insertions=(\S+)')


def run_min(ctx, p):
  def fn(case):
    rate, out = calculate(p, case, False)
    _, (refs, tests), chars, _ = case
    refs, tests = grouped(refs, 1), grouped(tests, 0.0)
    if not out.endswith('\n'):
      fail('the last line is cut', out=out, case=case)
    lines = out[:-1].split('\n')
    label = 'CER' if chars else 'WER'
    eq(len(lines), len(refs) + 3, 'lines of output', out=out, case=case)
    total = [0, 0, 0, 0]
    rich = False
    for i, line in zip(sorted(refs), lines):
      m = LINE.fullmatch(line)
      if not m:
        fail('not a line of statistics', line=line)
      n, s, d, ins = (int(x) for x in m.groups())
      cands = tests.get(i, [('', 0.0)])
      least = min(c for _, c in cands)
      ok = False
      for h in {t for t, c in cands if c == least}:
        h = tokens(h, chars)
        want = [(distance(tokens(t, chars), h), len(tokens(t, chars))) for t, _ in refs[i]]
        rich |= len({e / k for e, k in want}) > 1 or len(cands) > 1
        best = min(e / k for e, k in want)
        ok |= any(e / k == best and (s + d + ins, n) == (e, k) and ins - d == len(h) - k and
                  s + d <= k for e, k in want)
      if not ok:
        fail('not the closest reference at its edit distance', line=line, refs=refs[i], tests=cands,
             case=case)
      total = [a + b for a, b in zip(total, (n, s, d, ins))]
    eq(lines[-3], 'Summary ' + label, 'summary', case=case)
    eq(lines[-2], 'total statistics: reference length=%d substitutions=%d deletions=%d insertions=%d' %
       tuple(total), 'totals', case=case)
    want = sum(total[1:]) / total[0]
    eq(lines[-1], 'overall %s: %s' % (label, '%g' % want), 'overall rate', case=case)
    if not math.isclose(rate, want, rel_tol=1e-12, abs_tol=1e-12):
      fail('error rate', got=rate, want=want, case=case)
    return rich
  ctx.check('min', CASE, fn, ctx.n(900, 15000))


def near(got, want, what, **kw):
  if len(got) != len(want) or not all(
      math.isclose(g, w, rel_tol=1e-5, abs_tol=1e-9) for g, w in zip(got, want)):
    fail(what, got=got, want=want, **kw)


def softmax(costs):
  least = min(costs)
  e = [math.exp(least - c) for c in costs]
  return [x / sum(e) for x in e]


def run_pair(ctx, p):
  def fn(case):
    _, out = calculate(p, case, True)
    _, (refs, tests), chars, _ = case
    refs, tests = grouped(refs, 1), grouped(tests, 0.0)
    lines = out.split('\n')
    eq(lines.pop(), '', 'the last line ends', out=out)
    eq(len(lines), len(refs), 'lines of output', out=out, case=case)
    for i, line in zip(sorted(refs), lines):
      try:
        pairs = json.loads(line, object_pairs_hook=lambda x: x)
      except ValueError as e:
        fail('not JSON: %s' % e, line=line, case=case)
      eq(sorted(k for k, _ in pairs), ['D', 'L', 'hyp', 'p1', 'p2', 'ref'], 'keys', line=line)
      j = dict(pairs)
      hyp = tests.get(i, [('', 0.0)])
      ref = refs[i]
      n, m = len(hyp), len(ref)
      p1 = softmax([c for _, c in hyp])
      p2 = softmax([-math.log(c) for _, c in ref])
      eq([k for k, _ in j['ref']], [t for t, _ in ref], 'references', case=case)
      eq([k for k, _ in j['hyp'] if k != '<epsilon>'],
         [t for t, _ in hyp if t], 'hypotheses', case=case)
      near([v for _, v in j['hyp']], p1, 'probabilities of the hypotheses', case=case)
      near([v for _, v in j['ref']], p2, 'probabilities of the references', case=case)
      near(j['p1'], p1 + [0] * m, 'p1', case=case)
      near(j['p2'], [0] * n + p2, 'p2', case=case)
      want = [[0] * (n + m) for _ in range(n + m)]
      for a, (h, _) in enumerate(hyp):
        for b, (r, _) in enumerate(ref):
          want[a][n + b] = want[n + b][a] = distance(tokens(h, chars), tokens(r, chars))
      eq(j['D'], want, 'distances', case=case, line=line)
      eq(j['L'], [0] * n + [len(tokens(r, chars)) for r, _ in ref], 'lengths', case=case, line=line)
    return any(len(v) > 1 for v in refs.values()) or any(len(v) > 1 for v in tests.values())
  ctx.check('pair', CASE, fn, ctx.n(900, 15000))


def run_tokens(ctx, p):
  def fn(case):
    (refs, tests), chars, idx, k, is_test = case
    r = p.ok('tokens', int(chars), write('r', refs), write('t', tests), idx, k, int(is_test))
    rows = grouped(tests if is_test else refs, 0).get(idx, [])
    want = tokens(rows[k][0], chars) if k < len(rows) else []
    eq([x.decode() for x in r], want, 'tokens', case=case)
    return bool(want)
  ctx.check('tokens', st.tuples(files(), st.booleans(), st.sampled_from([0, 0, 1, 2, 3, 9, -1]),
                                st.integers(0, 3), st.booleans()).map(list), fn, ctx.n(600, 8000))


def run_refuse(ctx, p):
  def fn(case):
    refs, tests = case
    status, r = p.call('rate', 1, 0, os.path.join(os.environ['TMPDIR'], 'o'), write('r', refs),
                       write('t', tests))
    eq(status, 'refused', 'mismatched files are refused', case=case)
    return True
  a, b, c = [0, 'a', None], [1, 'b', None], [2, 'c', 1]
  ctx.enum('refuse', [[[a], [a, b]], [[a, b], [a]], [[a, c], [b, c]], [[a], [b]], [[a], []]], fn)

  def missing(case):
    good = write('g', [[0, 'a', None]])
    bad = os.path.join(os.environ['TMPDIR'], case[1])
    args = {'ref': [bad, good], 'test': [good, bad], 'out': [good, good]}[case[0]]
    out = os.path.join(os.environ['TMPDIR'], case[1] if case[0] == 'out' else 'o')
    for pairwise in (0, 1):
      eq(p.call('rate', 1, pairwise, out, *args)[0], 'refused', 'a file that cannot be opened or written', case=case)
    return True
  ctx.enum('missing', [['ref', 'none'], ['test', 'none'], ['test', 'nodir/x'], ['out', 'nodir/o'], ['out', '/dev/full']], missing)

  def short(case):
    name = os.path.join(os.environ['TMPDIR'], 's')
    open(name, 'w').write(case)
    good = write('g', [[0, 'a', None]])
    eq(p.call('rate', 1, 0, os.path.join(os.environ['TMPDIR'], 'o'), name, good)[0], 'refused',
       'a malformed line is refused', case=case)
    return True
  ctx.enum('short', ['0\n', '0\ta\t1\t2\n'], short)
