"""A02: Arabic-script romanization is reversible."""
import itertools

from lib import abjad as A
from lib import fst, gen
from lib.pbt import eq, fail, sut, st

TARGETS = [r'//nisaba/scripts/abjad_alphabet:py_api!visual_norm.*\.far',
           '//nisaba/scripts/abjad_alphabet:reversible_roman.far',
           '//nisaba/scripts/abjad_alphabet:reversible_roman_utf8.far',
           '//nisaba/scripts/abjad_alphabet:nfc.far']
RULE = ('Every pair of romanizable letters (and sampled triples and words), through FROM_ARAB and '
        'back; romanized units in any order through TO_ARAB; mixed text with arbitrary Unicode '
        'around words through the API. Compared with the letter table (all segmentations), and '
        'with the NFC of the text. Non-trivial: two letters or more; mixed text has both kinds.')


def subs(tier):
  return ['pairs', 'words', 'roman', 'mixed', 'triples']


def run(ctx):
  far = fst.far('nisaba/scripts/abjad_alphabet/reversible_roman.far')
  frm, to = far['FROM_ARAB'], far['TO_ARAB']
  u = fst.far('nisaba/scripts/abjad_alphabet/reversible_roman_utf8.far')
  ufrm, uto = u['FROM_ARAB'], u['TO_ARAB']
  tab = A.table('reversible_roman')
  letters = [a for a, _ in tab]
  nfcp = [a for a, _ in A.table('nfc')]

  def one(w):
    with sut('romanization'):
      got = set(fst.best_outputs(w, frm, limit=20))
    n = A.nfc(w)
    want = A.roman_outputs(n)
    eq(got, want, 'romanization by the letter table', input=w)
    for iso in sorted(got):
      with sut('de-romanization'):
        back = set(fst.best_outputs(iso, to, limit=20))
      eq(back, {n}, 'round trip', input=w, roman=iso)
    ctx.label('romanizable' if got else 'not romanizable')
    return len(w) > 1 and bool(got)

  def both(w):
    nt = one(w)
    a, b = fst.apply(w, frm), fst.apply(w, ufrm, True)
    eq(b, a, 'code-point romanization', input=w)
    if a is not None:
      eq(fst.apply(a, uto, True), A.nfc(w), 'code-point round trip', input=w)
    return nt

  if ctx.sub == 'pairs':
    ctx.enum('letters', letters, both)
    ctx.enum('pairs', (a + b for a, b in itertools.product(letters, letters)), one)
  elif ctx.sub == 'triples':
    ctx.check('triples', st.lists(st.sampled_from(letters), min_size=3, max_size=3).map(''.join), one,
              ctx.n(6000, 100000))
  elif ctx.sub == 'words':
    ctx.check('words', st.lists(st.one_of(st.sampled_from(letters), st.sampled_from(letters),
                                          st.sampled_from(nfcp), st.sampled_from(A.alphabet())),
                                max_size=8).map(''.join), both, ctx.n(3000, 50000))
    ctx.check('letters', st.lists(st.one_of(st.sampled_from(letters), st.sampled_from(nfcp)),
                                  max_size=12).map(''.join), both, ctx.n(2000, 40000))
  elif ctx.sub == 'roman':
    romans = sorted({b for _, b in tab})
    def roman(r):
      with sut('de-romanization'):
        outs = set(fst.best_outputs(r, to, limit=20))
      for o in sorted(outs):
        rs = set(fst.best_outputs(o, frm, limit=20))
        if not rs:
          fail('de-romanized text cannot be romanized', roman=r, text=o)
        for x in rs:
          eq(set(fst.best_outputs(x, to, limit=20)), {A.nfc(o)}, 'text from a romanization, round trip',
             roman=r, text=o, again=x)
      return bool(outs) and len(r) > 1
    ctx.check('roman', st.lists(st.sampled_from(romans), max_size=7).map(''.join), roman,
              ctx.n(3000, 50000))
  else:
    from nisaba.scripts import abjad_alphabet as api
    with sut('ToReversibleRoman'):
      t, f = api.ToReversibleRoman(), api.FromReversibleRoman()
    inside = {c for x in letters + nfcp for c in x} | {c for _, b in A.table('nfc') for c in b}
    both_sides = inside | set(''.join(b for _, b in tab))

    def mixed(case):
      words, seps = case
      seps = [''.join(c for c in x if c not in inside) or '|' for x in seps]
      text, want = '', ['']
      for w, x in itertools.zip_longest(words, seps):
        for part, r in ((w or '', None), (x or '', x or '')):
          text += part
          opts = sorted(A.roman_outputs(A.nfc(part))) if r is None else [r]
          want = [a + b for a in want for b in opts[:4]][:64]
      with sut('ToReversibleRoman().ApplyOnText'):
        got = t.ApplyOnText(text)
      if got not in want:
        fail('romanization of mixed text', input=text, got=got, want=want[:3])
      left = [c for c in got if c in set(letters)]
      if left:
        fail('letters left', input=text, got=got, left=left)
      return len(words) > 1
    word = st.lists(st.sampled_from(letters), max_size=5).map(''.join).filter(
        lambda w: 0 < len(A.roman_outputs(A.nfc(w))) <= 4)
    ctx.check('mixed', st.tuples(st.lists(word, max_size=4), st.lists(gen.foreign(3), max_size=4)),
              mixed, ctx.n(2000, 30000))
    def api_back(w):
      with sut('FromReversibleRoman'):
        eq(f.ApplyOnText(t.ApplyOnText(w)), A.nfc(w), 'API round trip', input=w)
      return len(w) > 1
    ctx.check('api', st.lists(st.sampled_from(letters), max_size=8).map(''.join), api_back,
              ctx.n(2000, 30000))
    def total(w):
      with sut('ToReversibleRoman().ApplyOnText'):
        got = t.ApplyOnText(w)
      eq([c for c in got if c not in both_sides], [c for c in w if c not in both_sides],
         'characters outside the script', input=w)
      left = [c for c in got if c in set(letters)]
      if left:
        fail('letters left', input=w, got=got, left=left)
      return True
    ctx.check('total', st.lists(st.one_of(gen.foreign(2), st.sampled_from(sorted(inside))),
                                max_size=7).map(''.join), total, ctx.n(1500, 20000))
