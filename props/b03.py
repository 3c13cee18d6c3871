"""B03: Brahmic romanization is reversible up to NFC."""
import unicodedata

from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, fail, sut, st
from props.b01_util import in_order

TARGETS = ['//nisaba/scripts/brahmic:iso.far', '//nisaba/scripts/brahmic:iso_utf8.far']
RULE = ('Unit sequences, every pair of units, well-formed words and their one-edit neighbours per '
        'script, through FROM_<script> and back through TO_<script>; and Latin strings made of '
        'romanization units through TO and back. Non-trivial: the word can be romanized and has '
        'two units or more.')


def subs(tier):
  return M.SCRIPTS


def run(ctx):
  s = ctx.sub
  far = fst.far('nisaba/scripts/brahmic/iso.far')
  frm, to = far['FROM_' + s.upper()], far['TO_' + s.upper()]
  u = fst.far('nisaba/scripts/brahmic/iso_utf8.far')
  ufrm, uto = u['FROM_' + s.upper()], u['TO_' + s.upper()]

  def one(w):
    with sut('romanization'):
      isos = fst.best_outputs(w, frm, limit=12)
    want = M.nfc(s, w)
    if in_order(w):
      eq(want, unicodedata.normalize('NFC', w), 'published NFC of ' + s, input=w)
    for iso in isos:
      with sut('de-romanization'):
        back = fst.best_outputs(iso, to, limit=12)
      eq(back, {want}, 'round trip through ISO of ' + s, input=w, iso=iso)
      again = fst.best_outputs(want, frm, limit=12)
      if iso not in again:
        fail('romanizing the round-tripped word gives another romanization', input=w, iso=iso,
             again=sorted(again))
    if len(isos) > 1:
      ctx.label('several equally good romanizations')
    ctx.label('romanized' if isos else 'outside the script')
    return bool(isos) and len(w) > 1

  def one_utf8(w):
    iso = fst.apply(w, ufrm, True)
    if iso is None:
      return False
    eq(fst.apply(iso, uto, True), M.nfc(s, w), 'code-point round trip of ' + s, input=w, iso=iso)
    return True

  ctx.enum('pairs', gen.pairs(s), one)
  own = set(M.script_chars(s)) | set(M.JOINERS)
  ins = lambda w: ''.join(c for c in w if c in own)  # noqa: E731
  ctx.check('words', gen.word(s, 8).map(ins), one, ctx.n(600, 15000))
  ctx.check('near', gen.any_word(s).map(ins), one, ctx.n(500, 12000))
  ctx.check('utf8', gen.any_word(s).map(ins), one_utf8, ctx.n(200, 4000))

  # Triples around the points where units may run together.
  kinds = [M.lhs(s, n)[:2] for n in M.LETTERS] + [list(M.JOINERS[:2])] + [
      M.lhs(s, 'vowel')[-2:], M.lhs(s, 'vowel_sign')[-2:], M.lhs(s, 'consonant')[-1:]]
  reps = sorted({x for k in kinds for x in k if x})
  step = 1 if ctx.thorough else 4
  triples = [a + b + c for a in reps for b in reps for c in reps]
  ctx.enum('triples', triples[ctx.seed % step::step], one)

  # Latin strings: whenever TO accepts and the text romanizes, it is stable.
  lat = sorted({b for n in M.LETTERS for _, b in M.table(s, n)} | {'.', '-', '˘', 'a', '.a'} | {
      b for _, b in M.rows('brahmic/data/symbol.tsv')})

  def latin(l):
    with sut('de-romanization'):
      outs = fst.best_outputs(l, to, limit=6)
    for o in sorted(outs):
      isos = fst.best_outputs(o, frm, limit=12)
      if not isos:
        fail('de-romanized text cannot be romanized', input=l, text=o)
      for iso in isos:
        eq(fst.best_outputs(iso, to, limit=6), {M.nfc(s, o)}, 'text from ISO, round trip', input=l,
           text=o, iso=iso)
    return bool(outs)

  ctx.check('latin', st.lists(st.sampled_from([x for x in lat if x]), max_size=6).map(''.join),
            latin, ctx.n(400, 10000))
