"""U03: composing a cascade does not depend on how it is associated."""
import itertools

from lib import fst
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/utils:rewrite', '//nisaba/scripts/utils:file']
RULE = ('Random lists of finite relations of different sizes (so that the state-count heuristic '
        'associates them differently), of rewrites, and random contextual rules, with random texts; '
        'compared with relational composition of Python sets and with a scanner. Non-trivial: '
        'the composition has three members or more and is not empty; a contextual rule acts '
        'at one place and not at another.')


def subs(tier):
  return ['relations', 'rewrites', 'contexts', 'small']


def word(hi=3, alpha='abc'):
  return st.text(alphabet=alpha, max_size=hi)


def compose(rels):
  cur = set(map(tuple, rels[0]))
  for r in rels[1:]:
    by = {}
    for a, b in r:
      by.setdefault(a, set()).add(b)
    cur = {(a, c) for a, b in cur for c in by.get(b, ())}
  return cur


def run(ctx):
  import pynini
  from nisaba.scripts.utils import file as uf
  from nisaba.scripts.utils import rewrite as rw
  from pynini.lib import byte

  def pairs(f, limit=2000):
    if f.start() == pynini.NO_STATE_ID:
      return set()
    return {(i, o) for i, o, _ in itertools.islice(f.paths().items(), limit)}

  if ctx.sub == 'relations':
    # Each relation maps into the words the next one knows, with some misses.
    pool = ['', 'a', 'ab', 'ba', 'कक', 'bbbbbbbb', 'cacacacaca']
    rel = st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(pool)).map(list),
                   min_size=1, max_size=14)
    def one(rels):
      # Reading a relation as a union of pairs.
      fsts = [pynini.string_map([tuple(p) for p in r]).optimize() for r in rels]
      copies = [f.copy() for f in fsts]
      with sut('ComposeFsts'):
        got = rw.ComposeFsts(fsts)
      eq(pairs(got), compose(rels), 'composition of relations', relations=rels)
      for f, c in zip(fsts, copies):
        eq(pairs(f), pairs(c), 'an argument was changed', relations=rels)
      it = rw.ComposeFsts(f for f in fsts)
      eq(pairs(it), compose(rels), 'composition of an iterator', relations=rels)
      return len(rels) > 2 and bool(compose(rels))
    ctx.check('relations', st.lists(rel, min_size=2, max_size=7), one, ctx.n(2500, 40000))
  elif ctx.sub == 'rewrites':
    rules = st.lists(st.tuples(st.text(alphabet='abc', min_size=1, max_size=3), word()).map(list),
                     min_size=0, max_size=6)
    def one(case):
      rules, texts = case
      fsts = [pynini.cross(a, b) for a, b in rules]
      with sut('RewriteAndComposeFsts'):
        f = rw.RewriteAndComposeFsts(fsts, byte.BYTE)
        g = rw.ComposeFsts([rw.Rewrite(x) for x in fsts], byte.BYTE.star)
      n = 0
      for t in texts:
        want = t
        for a, b in rules:
          n += want.replace(a, b) != want
          want = want.replace(a, b)
        eq(set(fst.outputs(t, f, limit=3)), {want}, 'composed rewrites', rules=rules, text=t)
        eq(set(fst.outputs(t, g, limit=3)), {want}, 'composed rewrites', rules=rules, text=t)
      return len(rules) > 2 and n > 1
    ctx.check('rewrites', st.tuples(rules, st.lists(word(9), min_size=1, max_size=5)), one,
              ctx.n(800, 12000))
  elif ctx.sub == 'contexts':
    # Targets over a-c, contexts over x-z: contexts are never rewritten.
    def one(case):
      a, b, left, right, text = case
      import re
      with sut('Rewrite'):
        f = rw.Rewrite(pynini.cross(a, b), byte.BYTE, pynini.union(*left) if left else '',
                       pynini.union(*right) if right else '')
      if any(not x for x in left):
        left = []
      if any(not x for x in right):
        right = []
      # Matches are tried left to right; contexts do not consume.
      lb = '(?:' + '|'.join('(?<=%s)' % x for x in left) + ')' if left else ''
      la = '(?=' + '|'.join(right) + ')' if right else ''
      want = re.sub(lb + a + la, b, text)
      eq(set(fst.outputs(text, f, limit=3)), {want}, 'contextual rewrite', rule=[a, b], left=left,
         right=right, text=text)
      return want != text and a in want
    ctx.check('contexts', st.tuples(
        # A deletion may bring a context and the next target together: not here.
        st.text(alphabet='ab', min_size=1, max_size=2), st.text(alphabet='abc', min_size=1, max_size=2),
        st.lists(st.text(alphabet='xyz', max_size=2), max_size=2),
        st.lists(st.text(alphabet='xyz', max_size=2), max_size=2),
        st.lists(st.sampled_from(['a', 'b', 'ab', 'aa', 'x', 'y', 'z', 'xy', 'xx']), max_size=9).map(
            ''.join)), one, ctx.n(2500, 40000))
  else:
    def small(case):
      kind, r = case
      f = pynini.string_map([tuple(p) for p in r]).optimize()
      with sut('ComposeFsts'):
        if kind == 0:
          got, want = rw.ComposeFsts([]), set()
        elif kind == 1:
          got, want = rw.ComposeFsts([], f), compose([r])
        elif kind == 2:
          got, want = rw.ComposeFsts([f], uf.EPSILON), compose([r])
        else:
          got, want = rw.ComposeFsts([f, f.copy().invert()], uf.EPSILON), compose(
              [r, [(b, a) for a, b in r]])
      eq(pairs(got), want, 'short lists', kind=kind, relation=r)
      # The same guards of the file utilities.
      e = uf.EMPTY
      eq(pairs(uf.OnEmpty(e, f)), compose([r]), 'OnEmpty of an empty grammar')
      eq(pairs(uf.OnEmpty(f)), compose([r]), 'OnEmpty of another grammar')
      eq(pairs(uf.QuesSafe(f)), compose([r]) | {('', '')}, 'QuesSafe')
      eq(pairs(uf.QuesSafe(e)), {('', '')}, 'QuesSafe of nothing')
      eq(fst.outputs('', uf.StarSafe(e), limit=3).keys(), {''}, 'StarSafe of nothing')
      s = uf.StarSafe(f)
      for a, b in r:
        for c, d in r:
          if b + d not in fst.outputs(a + c, s, limit=400):
            fail('StarSafe lacks a concatenation', relation=r, pair=[a + c, b + d])
      return kind == 3
    ctx.check('small', st.tuples(st.integers(0, 3), st.lists(st.tuples(
        st.text(alphabet='ab', min_size=1, max_size=3),
        st.text(alphabet='ab', min_size=1, max_size=3)).map(list), min_size=1, max_size=4)),
              small, ctx.n(800, 10000))
