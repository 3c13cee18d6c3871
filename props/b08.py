"""B08: well-formedness accepts exactly the orthographic syllables."""
from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/brahmic:wellformed.far']
RULE = ('Every pair of units, sampled triples, words built from the syllable structure and their '
        'one-edit neighbours, random unit sequences and mixtures with foreign text per script; '
        'compared with an independent recognizer of the syllable structure. Non-trivial: the word '
        'has two characters or more and (for generated words) both acceptance and rejection occur.')


def subs(tier):
  return M.SCRIPTS


def run(ctx):
  s = ctx.sub
  f = fst.far('nisaba/scripts/brahmic/wellformed.far')[s.upper()]

  def one(w):
    with sut('well-formedness'):
      got = fst.accepts(w, f)
    want = M.wellformed(s, w)
    eq(got, want, 'well-formed in ' + s, input=w)
    ctx.label('accepted' if want else 'rejected')
    return len(w) > 1

  ctx.enum('pairs', [''] + list(gen.pairs(s)), one)
  toks = gen.tokens(s)
  ctx.check('triples', st.tuples(*[st.sampled_from(toks)] * 3).map(''.join), one, ctx.n(800, 20000))
  ctx.check('wellformed', gen.wellformed(s, 6), one, ctx.n(800, 15000))
  ctx.check('near', gen.near_miss(s), one, ctx.n(1800, 30000))
  ctx.check('words', gen.word(s, 9), one, ctx.n(800, 15000))
  ctx.check('foreign', st.tuples(gen.wellformed(s, 2), gen.foreign(2), gen.wellformed(s, 2)).map(
      ''.join), one, ctx.n(300, 5000))

  # The accepted language is closed under concatenation, and an acceptor repeats its input.
  def closed(t):
    a, b = t
    if fst.accepts(a, f) and fst.accepts(b, f):
      if not fst.accepts(a + b, f):
        fail('concatenation of well-formed words is ill-formed', a=a, b=b)
      eq(fst.outputs(a + b, f, limit=3).keys(), {a + b}, 'the acceptor changes its input')
      return True
    return False

  ctx.check('closed', st.tuples(gen.wellformed(s, 3), gen.wellformed(s, 3)), closed, ctx.n(200, 4000))
