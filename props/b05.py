"""B05: romanization follows the published letter tables and ISO conventions."""
from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/brahmic:iso.far']
RULE = ('Every pair of units, unit sequences, well-formed words and their neighbours per script, '
        'through FROM_<script>, compared with the cheapest segmentations into published units by '
        'an independent dynamic program (ties: every one of them and no other). Romanizations '
        'through TO_<script> likewise return only texts that romanize to them. Non-trivial: the word is '
        'in the domain and has two units or more.')


def subs(tier):
  return M.SCRIPTS


def run(ctx):
  s = ctx.sub
  far = fst.far('nisaba/scripts/brahmic/iso.far')
  frm = far['FROM_' + s.upper()]

  def one(w):
    with sut('romanization'):
      got = fst.best_outputs(w, frm, limit=40)
    want = M.script_to_iso(s, w)
    if len(got) >= 40 or len(want) >= 40:
      if not got or not want:
        fail('domain of the romanization', input=w, got=len(got), want=len(want))
      return True
    eq(got, want, 'romanization of ' + s, input=w)
    ctx.label('domain' if want else 'outside the domain')
    if len(want) > 1:
      ctx.label('ties')
    return bool(want) and len(w) > 1

  ctx.enum('pairs', gen.pairs(s), one)
  ctx.check('words', gen.word(s, 9), one, ctx.n(900, 15000))
  ctx.check('near', gen.any_word(s), one, ctx.n(700, 12000))
  # Chains of vowels, signs and viramas after one consonant: the conventions.
  L = lambda n: M.lhs(s, n)  # noqa: E731
  pool = L('vowel') + L('vowel_sign') + L('virama') * 4 + L('consonant')[:6] + L(
      'dead_consonant') + L('coda') + L('vowel_length_sign') + L('standalone') + L(
          'subjoined_consonant') + [a for a, _ in M.rows('brahmic/data/symbol.tsv')]
  ctx.check('chains', st.lists(st.sampled_from(pool), min_size=2, max_size=9).map(''.join), one,
            ctx.n(900, 15000))
