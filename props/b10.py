"""B10: Brahmic reading normalization performs exactly the published rewrites."""
from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, sut, st

TARGETS = ['//nisaba/scripts/brahmic:reading_norm.far']
RULE = ('Unit sequences dense in the patterns of the reading rewrites, pairs of units, and mixtures '
        'with foreign text, per script and language; compared with a string-rewriting model over '
        'the published tables. Non-trivial: the text changes.')
UNITS = [('Beng', ''), ('Lepc', ''), ('Mlym', ''), ('Deva', 'hi')]


def subs(tier):
  return ['%s.%s' % u for u in UNITS]


def run(ctx):
  s, lang = ctx.sub.split('.')
  rule = (lang or s).upper()
  f = fst.far('nisaba/scripts/brahmic/reading_norm.far')[rule]

  def one(w):
    with sut('reading normalization'):
      got = fst.apply(w, f)
    want = M.reading(s, w, lang or None)
    eq(got, want, 'reading norm ' + rule, input=w)
    return want != w

  def unique(w):
    one(w)
    eq(len(fst.outputs(w, f, limit=3)), 1, 'number of distinct results', input=w)
    return True

  parts = gen.rule_parts(s, ('reading_norm',))
  if lang:
    parts += [x for r in M.table(s, 'reading_norm', lang) for x in r if x]
    parts += [c for x in parts for c in x]
  toks = gen.tokens(s)
  dense = st.lists(st.one_of(st.sampled_from(parts), st.sampled_from(parts), st.sampled_from(toks)),
                   max_size=9).map(''.join)
  ctx.enum('pairs', gen.pairs(s), one)
  ctx.check('dense', dense, one, ctx.n(6000, 80000))
  ctx.check('words', gen.any_word(s, parts), one, ctx.n(3000, 40000))
  ctx.check('unique', dense, unique, ctx.n(600, 8000))
  ctx.check('mixed', st.lists(st.one_of(gen.foreign(2), st.sampled_from(parts),
                                        st.sampled_from(toks)), max_size=8).map(''.join),
            one, ctx.n(2000, 30000))
