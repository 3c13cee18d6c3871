"""B07: visual normalization performs exactly the published rewrites."""
from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, sut, st

TARGETS = ['//nisaba/scripts/brahmic:visual_norm.far']
RULE = ('Unit sequences, well-formed words and their one-edit neighbours of each script '
        '(and language variant), every pair of units, and the same around foreign characters; '
        'compared with a string-rewriting model over the published tables. Non-trivial: the '
        'normalization changes the word beyond NFC.')

UNITS = [(s, '') for s in M.SCRIPTS] + [('Beng', 'as'), ('Beng', 'bn')]


def subs(tier):
  return ['%s.%s' % u for u in UNITS]


def run(ctx):
  script, lang = ctx.sub.split('.')
  rule = (lang or script).upper()
  f = fst.far('nisaba/scripts/brahmic/visual_norm.far')[rule]

  def one(w):
    with sut('visual normalization'):
      got = fst.apply(w, f)
    want = M.visual(script, w, lang or None)
    eq(got, want, 'visual norm %s' % rule, input=w)
    return want != M.nfc(script, w)

  def unique(w):
    one(w)
    outs = set(fst.outputs(w, f, limit=3))
    eq(len(outs), 1, 'number of distinct visual norms', input=w)
    return True

  ctx.enum('pairs', gen.pairs(script), one)
  extra = [x for n in ('before_consonant', 'after_consonant')
           for r in M.table(script, n, lang or None) for x in r if x]
  ctx.check('words', gen.word(script, 10, extra), one, ctx.n(1200, 20000))
  ctx.check('near', gen.any_word(script, extra), one, ctx.n(800, 15000))
  ctx.check('unique', gen.word(script, 8, extra), unique, ctx.n(200, 3000))

  # Repeated and interleaved joiners and marks.
  noisy = st.lists(st.sampled_from(
      sorted(M.marks(script)) + M.lhs(script, 'consonant')[:4] +
      M.lhs(script, 'virama') * 3 + list(M.JOINERS) * 3), max_size=12).map(''.join)
  ctx.check('marks', noisy, one, ctx.n(600, 10000))

  # Foreign characters separate what the rules may see.
  mixed = st.lists(st.one_of(gen.foreign(2), gen.word(script, 4)), max_size=5).map(''.join)
  own = set(M.script_chars(script)) | set(M.JOINERS)

  def mixed_one(w):
    one(w)
    return any(c in own for c in w) and any(c not in own for c in w)

  ctx.check('mixed', mixed, mixed_one, ctx.n(300, 5000))
