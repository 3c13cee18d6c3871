"""B11: fixed-rule Latin to Malayalam transliteration."""
import string

from lib import brahmic as M
from lib import fst
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/brahmic:fixed.far', '//nisaba/scripts/brahmic:fixed_utf8.far',
           '//nisaba/scripts/brahmic:iso.far']
RULE = ('Strings over the Latin letters and the patterns of the published cascade, every string '
        'of up to two letters/patterns, and printable ASCII; compared with applying the published '
        'cascade rule by rule and converting through the ISO grammar. Non-trivial: the word is '
        'accepted and at least two rules of the cascade act on it.')
RULES = M.table('Mlym', 'fixed')
PATS = sorted({a for a, _ in RULES if a.isascii()} | set('abcdefghijklmnopqrstuvwxyzRNLSTD~'))
VOWELS = ['a', 'aa', 'i', 'ii', 'u', 'uu', 'e', 'E', 'o', 'O', 'ai', 'au', 'R']


def subs(tier):
  return ['pairs', 'words', 'syllables', 'ascii']


def cascade(w):
  n = 0
  for r in RULES:
    v = M.scan(w, [r])
    n += v != w
    w = v
  return w, n


def run(ctx):
  f = fst.far('nisaba/scripts/brahmic/fixed.far')['MLYM']
  fu = fst.far('nisaba/scripts/brahmic/fixed_utf8.far')['MLYM']
  to = fst.far('nisaba/scripts/brahmic/iso.far')['TO_MLYM']

  def one(w):
    with sut('fixed-rule transliteration'):
      got = fst.best_outputs(w, f, limit=8)
    iso, n = cascade(w)
    want = fst.best_outputs(iso, to, limit=8)
    eq(got, want, 'fixed-rule output against ISO conversion of the cascade', input=w, iso=iso)
    if not got:
      return False
    for o in got:
      if any(c in string.ascii_letters for c in o):
        fail('Latin letter in the output', input=w, got=o)
      # The output romanizes back to the same ISO word at no greater cost.
      back = M.script_to_iso('Mlym', o)
      if not back:
        fail('output is not Malayalam text', input=w, got=o)
    eq(fst.apply(w, fu, True) in got, True, 'code-point version', input=w, outs=got)
    if len(got) > 1:
      ctx.label('tie')
    return n >= 2

  if ctx.sub == 'pairs':
    ctx.enum('pairs', [''] + PATS + [a + b for a in PATS for b in PATS], one)
  elif ctx.sub == 'words':
    ctx.check('words', st.lists(st.sampled_from(PATS), max_size=9).map(''.join), one,
              ctx.n(2500, 40000))
  elif ctx.sub == 'syllables':
    syl = st.tuples(st.lists(st.sampled_from([p for p in PATS if p not in VOWELS]),
                             max_size=2).map(''.join), st.sampled_from(VOWELS)).map(''.join)
    coda = st.sampled_from(['', '', 'm', 'n', 'N', 'l', 'L', 'r', 'n~', 'm~', '~'])
    ctx.check('syllables', st.tuples(st.lists(syl, max_size=4).map(''.join), coda).map(''.join),
              one, ctx.n(2500, 40000))
  else:
    ctx.check('ascii', st.text(alphabet=sorted(set(string.printable) - set('[]\\')), max_size=8),
              one, ctx.n(1500, 20000))
