"""U01: unordered rule sets rewrite longer patterns first."""
import itertools
import os

from lib import brahmic as M
from lib import fst
from lib.pbt import eq, fail, raises, sut, st

TARGETS = ['//nisaba/scripts/utils:rule']
RULE = ('Random rule sets over a small alphabet (mixing one- to four-byte characters) and their '
        'permutations, with random texts, compiled with fst_from_rules and fst_from_rule_file; '
        'compared with a left-to-right scanner per layer of longer patterns. Non-trivial: one '
        'pattern contains another, or two patterns overlap, and the text is rewritten.')
ALPHA = ['a', 'b', 'c', 'क', 'é', '𝔄']


def subs(tier):
  return ['layers', 'compile', 'orders', 'file', 'reject', 'exhaustive']


def pat(lo, hi, alpha=ALPHA):
  return st.lists(st.sampled_from(alpha), min_size=lo, max_size=hi).map(''.join)


def rule_sets(max_size=6, alpha=ALPHA):
  return st.lists(st.tuples(pat(1, 4, alpha), pat(0, 3, alpha)), min_size=1, max_size=max_size,
                  unique_by=lambda r: r[0])


def text_for(rules, n=8):
  parts = [r[0] for r in rules] + ALPHA[:3]
  return st.lists(st.sampled_from(parts), max_size=n).map(''.join)


def check_layers(rules, got):
  flat = [r for layer in got for r in layer]
  eq(sorted(map(tuple, flat)), sorted(set(map(tuple, rules))), 'every rule once', rules=rules)
  at = {r: i for i, layer in enumerate(got) for r in map(tuple, layer)}
  for a, b in itertools.permutations(at, 2):
    if a[0] in b[0] and not at[b] < at[a]:
      fail('a pattern does not act before the pattern inside it', outer=b, inner=a,
           layers=[[tuple(r) for r in l] for l in got])
  want = M.layers([tuple(r) for r in rules])
  eq([sorted(map(tuple, l)) for l in got], [sorted(l) for l in want], 'layers', rules=rules)


def nested(rules):
  l = [r[0] for r in rules]
  return any(a != b and (a in b or any(a.endswith(b[:k]) for k in range(1, len(b))))
             for a in l for b in l)


def run(ctx):
  from nisaba.scripts.utils import rule as rl
  from pynini.lib import byte
  R = lambda rules: [rl.Rule(*r) for r in rules]  # noqa: E731
  sigma = byte.BYTE

  def compiled(rules):
    with sut('fst_from_rules'):
      return rl.fst_from_rules(R(rules), sigma)

  def apply(f, t, rules):
    with sut('rewriting'):
      out = fst.outputs(t, f, limit=3)
    want = M.unordered(t, tuple(map(tuple, rules)))
    eq(set(out), {want}, 'rewriting', text=t, rules=rules)
    return want != t

  if ctx.sub == 'layers':
    def layers(rules):
      with sut('partition_unordered'):
        got = [list(l) for l in rl.partition_unordered(R(rules))]
      check_layers(rules, got)
      return nested(rules)
    ctx.check('layers', rule_sets(9, ALPHA[:3]), layers, ctx.n(4000, 60000))
    ctx.check('repeated', rule_sets(6, ALPHA[:2]).map(lambda r: r + r[:2]), layers, ctx.n(500, 5000))
  elif ctx.sub in ('compile', 'orders'):
    def one(case):
      rules, texts, order = case
      f = compiled(rules)
      nt = False
      for t in texts:
        nt |= apply(f, t, rules)
      if ctx.sub == 'orders':
        g = compiled([rules[i] for i in order])
        for t in texts:
          eq(set(fst.outputs(t, g, limit=3)), set(fst.outputs(t, f, limit=3)),
             'the order of the rules changes the result', rules=rules, order=order, text=t)
      return nt and nested(rules)
    case = rule_sets(6).flatmap(lambda rs: st.tuples(
        st.just(rs), st.lists(text_for(rs), min_size=1, max_size=6),
        st.permutations(range(len(rs)))))
    ctx.check('rules', case, one, ctx.n(700, 10000))
  elif ctx.sub == 'exhaustive':
    # Every pair of rules over {a,b} with patterns up to 3, on every text up to 5.
    pats = [''.join(p) for n in (1, 2, 3) for p in itertools.product('ab', repeat=n)]
    pairs = [[(x, rx), (y, ry)] for x, y in itertools.combinations(pats, 2)
             for rx, ry in (('c', 'd'), ('', 'ab'), ('b', 'a'))]
    texts = [''.join(p) for n in range(1, 6) for p in itertools.product('ab', repeat=n)]
    def one(rules):
      f = compiled(rules)
      for t in texts:
        apply(f, t, rules)
      return nested(rules)
    ctx.enum('pairs', pairs if ctx.thorough else pairs[ctx.seed % 3::3], one)
  elif ctx.sub == 'file':
    path = os.path.join(ctx.scratch, 'rules.tsv')
    def one(case):
      rules, texts, comments = case
      with open(path, 'w', encoding='utf8') as f:
        for i, (a, b) in enumerate(rules):
          if comments & (1 << i):
            f.write('# comment %s\n\n' % a)
          f.write('%s\t%s\n' % (a, b) if b or comments & (1 << i) else a + '\n')
      with sut('rules_from_string_file'):
        got = [tuple(r) for r in rl.rules_from_string_file(path)]
      eq(got, [tuple(r) for r in rules], 'rules read from the file', rules=rules)
      with sut('fst_from_rule_file'):
        f = rl.fst_from_rule_file(path, sigma)
      nt = False
      for t in texts:
        nt |= apply(f, t, rules)
      return nt
    al = ALPHA + list('019-"')
    case = rule_sets(5, al).flatmap(lambda rs: st.tuples(
        st.just(rs), st.lists(text_for(rs), min_size=1, max_size=3), st.integers(0, 31)))
    ctx.check('file', case, one, ctx.n(500, 8000))
  else:
    def conflict(case):
      rules, i, other = case
      lhs, rhs = rules[i % len(rules)]
      if other == rhs:
        return False
      bad = rules + [(lhs, other)]
      if not raises(ValueError, rl.fst_from_rules, R(bad), sigma):
        fail('two rules for one pattern are not rejected', rules=bad)
      return True
    ctx.check('conflict', st.tuples(rule_sets(4), st.integers(0, 9), pat(0, 3)), conflict,
              ctx.n(300, 3000))
    path = os.path.join(ctx.scratch, 'bad.tsv')
    def empty(case):
      rules, i, rhs = case
      rows = ['%s\t%s' % tuple(r) for r in rules]
      rows.insert(i % (len(rows) + 1), '\t' + rhs)
      with open(path, 'w', encoding='utf8') as f:
        f.write('\n'.join(rows) + '\n')
      if not raises(ValueError, lambda: rl.fst_from_rule_file(path, sigma)):
        fail('an empty left-hand side is not rejected', rows=rows)
      return True
    ctx.check('empty', st.tuples(rule_sets(4), st.integers(0, 9), pat(1, 3)), empty,
              ctx.n(300, 3000))
