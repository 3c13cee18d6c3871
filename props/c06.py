"""C06: k-best lists of full strings: extraction, rejoining and ensembling."""
import collections
import itertools
import math
import os
import re

from lib import cc
from lib.pbt import eq, fail, st

TARGETS = []
RULE = (
    'The C++ source is compiled from the working tree with address and undefined-behaviour '
    'sanitizers (the n-gram library it counts words with is replaced by an exact unigram counter). '
    'Cases: generated word lattices, lists of scored strings with split indices, and outputs of '
    'several systems, given in memory and as files, with ties, repeated words, costs up to '
    'thousands, few and many requested results. Oracle: enumeration of all paths, combinations and '
    'strings. Non-trivial: more strings exist than were asked for, or a list was combined.')


def prepare(scratch, env, tier):
  env['CC_BIN'] = cc.build(scratch, 'kbest', [
      'nisaba/translit/tools/kbest-full-string-util.cc', 'nisaba/port/file_util.cc',
      'nisaba/port/utf8_delimiters.cc', 'nisaba/port/unicode_properties.cc',
      'nisaba/port/utf8_util.cc'])


def subs(tier):
  return ['extract0', 'extract1', 'rejoin0', 'rejoin1', 'ensemble0', 'ensemble1', 'files', 'refuse']


def run(ctx):
  p = cc.Proc(os.environ['CC_BIN'])
  try:
    globals()['run_' + ctx.sub.rstrip('01')](ctx, p)
  finally:
    p.close()


TOL = 2e-3
WORD = st.sampled_from(['a', 'b', 'c', 'ab', 'अ', 'é', '"', '𑄇', 'e', '0', '-1', '<s>'])
COST = st.one_of(
    st.sampled_from([0.0, 0.5, 0.5, 1.0, 2.0, 0.25]), st.floats(0, 8).map(lambda x: round(x, 3)),
    st.floats(0, 40).map(lambda x: round(x, 2)))
BIG = st.one_of(COST, COST, st.floats(200, 1500).map(lambda x: float(round(x))))
SPACE = '[ \t\x0b\x0c\r\x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+'


def tmp(name):
  return os.path.join(os.environ['TMPDIR'], name)


def write(name, lines):
  with open(tmp(name), 'w', encoding='utf8', newline='') as f:
    f.write(''.join(line + '\n' for line in lines))
  return tmp(name)


def read(name):
  with open(tmp(name), encoding='utf8', newline='') as f:
    t = f.read()
  if t and not t.endswith('\n'):
    fail('the last line is cut', out=t)
  return t.split('\n')[:-1]


def take(r, pos):
  """One list of (string, score) of the answer, and where it ends."""
  n = int(r[pos])
  out = [(r[pos + 1 + 2 * i].decode(), float(r[pos + 2 + 2 * i])) for i in range(n)]
  return out, pos + 1 + 2 * n


def logsum(costs):
  least = min(costs)
  return least - math.log(sum(math.exp(least - c) for c in costs))


def best(got, want, k, norm, what, distinct=False, tol=TOL, **kw):
  """got: [(string, score)]; want: all candidate strings with their costs."""
  want = sorted(want, key=lambda x: x[1])
  n = min(k, len(want))
  eq(len(got), n, what + ': number of results', results=got, expected=want[:n + 3], **kw)
  scale = 1 + abs(want[n - 1][1]) / 1000
  shift = logsum([c for _, c in want[:n]]) if norm else 0.0
  scores = [c for _, c in got]
  for g, (_, c) in zip(sorted(scores), want):
    if not abs(g - (c - shift)) <= tol * scale:
      fail(what + ': scores', got=got, want=[(s, c - shift) for s, c in want[:n + 3]], **kw)
  if any(b < a - tol * scale for a, b in zip(scores, scores[1:])):
    fail(what + ': not in order of score', got=got, **kw)
  left = collections.defaultdict(list)
  for s, c in want:
    left[s].append(c - shift)
  for s, c in got:
    near = [w for w in left.get(s, []) if abs(w - c) <= tol * scale]
    if not near:
      fail(what + ': no such string with that score', string=s, score=c, got=got,
           want=[(s, c - shift) for s, c in want[:n + 3]], **kw)
    left[s].remove(min(near, key=lambda w: abs(w - c)))


# Extraction.


@st.composite
def lattices(draw):
  """[[idx, [[input word, [[word, cost], ...]], ...]], ...]"""
  out, idx = [], draw(st.integers(0, 3))
  for _ in range(draw(st.integers(1, 4))):
    cost = draw(st.sampled_from([COST, COST, BIG]))
    words = draw(st.lists(st.tuples(WORD, st.lists(
        st.tuples(WORD, cost).map(list), min_size=1, max_size=4)).map(list), min_size=1, max_size=4))
    out.append([idx, words])
    idx += draw(st.integers(1, 3))
  return out


def lattice_lines(lattice):
  return ['%d\t%d\t%s\t%s\t%r' % (idx, pos, i, w, c) for idx, words in lattice
          for pos, (i, cands) in enumerate(words) for w, c in cands]


def run_extract(ctx, p):
  def fn(case):
    lattice, k, from_file, scores, full = case
    lines = lattice_lines(lattice)
    name = write('in', lines) if from_file else ''
    args = [] if from_file else lines
    r = p.ok('extract', name, k, *args)
    pos, rich = 0, False
    lists = []
    for _ in range(2):
      for _, words in lattice:
        got, pos = take(r, pos)
        want = [(' '.join(w for w, _ in path), sum(c for _, c in path))
                for path in itertools.product(*(c for _, c in words))]
        best(got, want, k, True, 'k best paths', case=case)
        rich |= len(want) > k > 1
        lists.append(got)
    eq(pos, len(r), 'number of lists', case=case)
    n = len(lattice)
    eq(lists[:n], lists[n:], 'the same answer again', case=case)
    p.ok('extractout', name, k, tmp('out'), int(scores), int(full), *args)
    out = read('out')
    want = []
    for (idx, words), got in zip(lattice, lists):
      for s, c in got:
        head = ' '.join(i for i, _ in words) if full else str(idx)
        want.append(([head] if k > 1 else []) + [s] + ([c] if scores else []))
    eq(len(out), len(want), 'lines of output', out=out, case=case)
    for line, w in zip(out, want):
      cols = line.split('\t')
      if scores:
        if not (len(cols) == len(w) and abs(float(cols.pop()) - w[-1]) < 1e-3 + abs(w[-1]) * 1e-5):
          fail('score written', line=line, case=case)
      eq(cols, w[:-1] if scores else w, 'line of output', line=line, case=case)
    return rich
  ctx.check('extract', st.tuples(
      lattices(), st.sampled_from([1, 2, 3, 4, 5, 8, 20, 300]), st.booleans(), st.booleans(),
      st.booleans()).map(list), fn, ctx.n(1200, 20000))


# Rejoining.

GAP = st.sampled_from([' ', ' ', ' ', '  ', '\u3000', '\xa0', ' \u2003 '])


@st.composite
def spaced(draw):
  words = draw(st.lists(WORD, min_size=1, max_size=3))
  t = words[0]
  for w in words[1:]:
    t += draw(GAP) + w
  return draw(st.sampled_from(['', '', ' '])) + t + draw(st.sampled_from(['', '', ' ', '\xa0']))


@st.composite
def groups(draw):
  """[[[input, [[string, cost], ...]], ...], ...]: the parts of each string."""
  out = []
  n = 0
  for _ in range(draw(st.integers(1, 4))):
    parts = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
      cost = draw(st.sampled_from([COST, COST, BIG]))
      parts.append([draw(st.sampled_from(['%d', 'in %d', 'w%d'])) % n, draw(st.lists(
          st.tuples(spaced(), cost).map(list), min_size=1, max_size=4))])
      n += 1
    out.append(parts)
  return out


def norm(s):
  return ' '.join(w for w in re.split(SPACE, s) if w)


def run_rejoin(ctx, p):
  def fn(case):
    parts, k, from_file = case
    lines = ['%s\t%s\t%r' % (i, s, c) for g in parts for i, cands in g for s, c in cands]
    idx = [n for n, g in enumerate(parts) for _ in g]
    if from_file:
      r = p.ok('rejoin', k, tmp('out'), write('in', lines), write('split', [str(i) for i in idx]))
    else:
      r = p.ok('rejoin', k, tmp('out'), '', ','.join(str(i) for i in idx), *lines)
    eq(int(r[0]), len(parts), 'number of lists', case=case)
    pos, rich = 1, False
    most = k if k > 0 else max(len(c) for g in parts for _, c in g)
    want_out = []
    for n, g in enumerate(parts):
      got, pos = take(r, pos)
      want_out += [(str(n), s, c) for s, c in got]
      if len(g) == 1:
        eq([s for s, _ in got], [norm(s) for s, _ in g[0][1]], 'a list that was not split', case=case)
        if any(abs(a - b) > 1e-9 for (_, a), (_, b) in zip(got, g[0][1])):
          fail('scores of a list that was not split', got=got, case=case)
        continue
      want = [(norm(' '.join(s for s, _ in path)), sum(c for _, c in path))
              for path in itertools.product(*(c for _, c in g))]
      best(got, want, most, False, 'best combinations', case=case)
      rich |= len(want) > 1
    got, pos = take(r, pos)
    eq((got, pos), ([], len(r)), 'a list that does not exist', case=case)
    out = [tuple(x.split('\t')) for x in read('out')]
    eq([x[:2] for x in out], [x[:2] for x in want_out], 'output', case=case)
    for (*_, a), (*_, b) in zip(out, want_out):
      if abs(float(a) - b) > 1e-5:
        fail('score written', got=a, want=b, case=case)
    return rich
  ctx.check('rejoin', st.tuples(groups(), st.sampled_from([-1, 0, 1, 2, 3, 5, 20, 200]),
                                st.booleans()).map(list), fn, ctx.n(1500, 20000))


# Ensembles.


def ensemble(cands, length):
  """All strings with their costs."""
  words = [norm(s).split(' ') for s, _ in cands]
  counts = collections.Counter(len(w) for w in words)
  if len(counts) > 1:
    keep = length if length > 0 else max(counts, key=lambda n: (counts[n], n))
    kept = [i for i, w in enumerate(words) if len(w) == keep]
    words, cands = [words[i] for i in kept], [cands[i] for i in kept]
  if not words:
    return []
  places = []
  for i in range(len(words[0])):
    costs = collections.defaultdict(list)
    for w, (_, c) in zip(words, cands):
      costs[w[i]].append(c)
    places.append([(w, logsum(c)) for w, c in costs.items()])
  return [(' '.join(w for w, _ in path), sum(c for _, c in path))
          for path in itertools.product(*places)]


@st.composite
def candidates(draw, cost=COST, most=6):
  n = draw(st.integers(1, 3))
  out = []
  for _ in range(draw(st.integers(1, most))):
    m = n if draw(st.integers(0, 3)) else draw(st.integers(1, 4))
    words = draw(st.lists(st.sampled_from(['a', 'b', 'अ', 'cd', '𑄇']), min_size=m, max_size=m))
    t = words[0]
    for w in words[1:]:
      t += draw(GAP) + w
    out.append([t, draw(cost)])
  return out


KS = st.sampled_from([1, 2, 2, 3, 5, 20, 100])


def run_ensemble(ctx, p):
  def fn(case):
    cands, length, k = case
    want = ensemble(cands, length)
    if not want:
      return False  # Everything pruned.
    r = p.ok('ensemble', length, k, *[x for s, c in cands for x in (s, repr(c))])
    one, pos = take(r, 0)
    got, pos = take(r, pos)
    best(one, want, 1, True, 'best string', case=case)
    best(got, want, k, True, 'best strings', case=case)
    eq(len({s for s, _ in got}), len(got), 'distinct strings', results=got, case=case)
    return len(want) > 1 and len(cands) > 2
  ctx.check('ensemble', st.tuples(candidates(), st.sampled_from([-1, 0, 0, 1, 2, 3, 4]), KS).map(list),
            fn, ctx.n(1500, 20000))


@st.composite
def systems(draw):
  """Systems, each [[input, [[string, cost], ...]], ...]; lengths or None; k."""
  n = draw(st.integers(1, 4))
  inputs = [draw(WORD)]
  while len(inputs) < n:
    inputs.append(draw(WORD.filter(lambda w: w != inputs[-1])))
  cost = draw(st.sampled_from([COST, COST, BIG]))
  out = [[[i, draw(candidates(cost, 4))] for i in inputs] for _ in range(draw(st.integers(2, 3)))]
  lengths = draw(st.one_of(st.none(), st.lists(st.integers(1, 4), min_size=n, max_size=n)))
  return [out, lengths, draw(KS)]


def expected(outs, lengths):
  """The ensemble for each input; None when everything is pruned somewhere."""
  every = []
  for i in range(len(outs[0])):
    cands = []
    for s in outs:
      shift = logsum([c for _, c in s[i][1]])
      cands += [[t, c - shift] for t, c in s[i][1]]
    want = ensemble(cands, lengths[i] if lengths else -1)
    if not want:
      return None
    every.append(want)
  return every


def judge_files(every, k, case):
  """The file written for an ensemble."""
  got = [[] for _ in every]
  for line in read('out'):
    i, s, c = line.split('\t')
    got[int(i)].append((s, float(c)))
  for g, want in zip(got, every):
    best(g, want, k, True, 'best strings', case=case)
    eq(len({s for s, _ in g}), len(g), 'distinct strings', results=g, case=case)


def write_systems(outs, lengths):
  """Names of the files, and of the file of lengths or ''."""
  names = [write('s%d' % j, ['%s\t%s\t%r' % (i, t, c) for i, cands in s for t, c in cands])
           for j, s in enumerate(outs)]
  return ':'.join(names), write('lens', [str(x) for x in lengths]) if lengths else ''


def run_files(ctx, p):
  def fn(case):
    outs, lengths, k = case
    every = expected(outs, lengths)
    if every is None:
      return False
    names, lens = write_systems(outs, lengths)
    p.ok('files', names, lens, k, tmp('out'))
    judge_files(every, k, case)
    return any(len(w) > 1 for w in every)
  ctx.check('files', systems(), fn, ctx.n(1000, 15000))


def run_refuse(ctx, p):
  def fn(case):
    kind, rest = case
    if kind == 'extract':
      s, _ = p.call('extract', '', 2, *rest)
      eq(s, 'refused', 'a malformed lattice', case=case)
      s, _ = p.call('extract', write('in', rest), 2)
    elif kind == 'rejoin':
      s, _ = p.call('rejoin', 2, tmp('out'), '', rest[0], *rest[1:])
    elif kind == 'files':
      names = [write('f%d' % i, x) for i, x in enumerate(rest[1:])]
      s, _ = p.call('files', ':'.join(names), write('l', rest[0]) if rest[0] else '', 2, tmp('out'))
    else:
      good = write('good', rest[1])
      bad = tmp(rest[0])
      s, _ = {'extractfile': lambda: p.call('extract', bad, 2),
              'extractout': lambda: p.call('extractout', good, 2, bad, 0, 0),
              'rejoinfile': lambda: p.call('rejoin', 2, tmp('out'), bad, good),
              'rejoinsplit': lambda: p.call('rejoin', 2, tmp('out'), good, bad),
              'filesin': lambda: p.call('files', good + ':' + bad, '', 2, tmp('out')),
              'rejoinout': lambda: p.call('rejoin', 2, bad, good, write('idx', ['0'])),
              'filesout': lambda: p.call('files', good + ':' + good, '', 2, bad),
              'fileslen': lambda: p.call('files', good + ':' + good, bad, 2, tmp('out')),
              }[kind]()
    eq(s, 'refused', 'malformed input is refused', case=case)
    return True
  ctx.enum('refuse', [
      ['extract', ['0\t0\ta\tb']], ['extract', ['0\t0\ta\tb\t1\t2']], ['extract', ['0\t1\ta\tb\t1']],
      ['extract', ['0\t0\ta\tb\t1', '0\t2\ta\tb\t1']],
      ['extract', ['0\t0\ta\tb\t1', '0\t1\ta\tb\t1', '0\t0\ta\tb\t1']],
      ['extract', ['0\t0\ta\tb\t1', '1\t1\ta\tb\t1']],
      ['rejoin', ['0', 'a\tb']], ['rejoin', ['0', 'a\tb\t1\t2']],
      ['rejoin', ['0', 'a\tb\t1', 'c\tb\t1']], ['rejoin', ['0,1,2', 'a\tb\t1', 'c\tb\t1']],
      ['rejoin', ['0,2', 'a\tb\t1', 'c\tb\t1']], ['rejoin', ['1,0', 'a\tb\t1', 'c\tb\t1']],
      ['files', [[], ['a\tb\t1']]], ['files', [[], ['a\tb\t1'], ['a\tb\t1', 'b\tb\t1']]],
      ['files', [[], ['a\tb\t1'], ['a\tb']]], ['files', [['1', '1'], ['a\tb\t1'], ['a\tb\t1']]],
      ['files', [['0'], ['a\tb\t1'], ['a\tb\t1']]],
      ['extractout', ['/dev/full', ['0\t0\ta\tb\t1']]], ['rejoinout', ['/dev/full', ['a\tb\t1']]],
      ['filesout', ['/dev/full', ['a\tb\t1']]], ['rejoinout', ['nodir/x', ['a\tb\t1']]],
      ['filesout', ['nodir/x', ['a\tb\t1']]],
      ['extractfile', ['nodir/x', []]], ['extractout', ['nodir/x', ['0\t0\ta\tb\t1']]],
      ['rejoinfile', ['nodir/x', ['0']]], ['rejoinsplit', ['nodir/x', ['a\tb\t1']]],
      ['filesin', ['nodir/x', ['a\tb\t1']]], ['fileslen', ['nodir/x', ['a\tb\t1']]]], fn)
