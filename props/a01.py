"""A01: Arabic-script NFC preserves canonical equivalence."""
import itertools
import unicodedata

from lib import abjad as A
from lib import fst
from lib.pbt import eq, fail, sut, st
from props.b01_util import in_order

TARGETS = ['//nisaba/scripts/abjad_alphabet:nfc.far', '//nisaba/scripts/abjad_alphabet:nfc_utf8.far']
RULE = ('Sequences of letters, composable parts and combining marks of the supported alphabet, '
        'canonical decompositions of them, every pair and (by stride) every triple of characters that '
        'occur in the NFC table; compared with unicodedata and with the published rules. '
        'Non-trivial: NFC changes the text, or marks follow one another.')
UNI = lambda w: unicodedata.normalize('NFC', w)  # noqa: E731
def subs(tier):
  return ['pairs', 'triples', 'dense', 'words', 'nfd', 'accents']


def run(ctx):
  f = fst.far('nisaba/scripts/abjad_alphabet/nfc.far')['ARAB']
  fu = fst.far('nisaba/scripts/abjad_alphabet/nfc_utf8.far')['ARAB']
  al = A.alphabet()
  tab = A.table('nfc')
  parts = sorted({x for a, b in tab for x in (a, b)} | {a[:k] for a, _ in tab for k in range(1, len(a))}
                 | {a[k:] for a, _ in tab for k in range(1, len(a))})
  marks = sorted({c for c in al if unicodedata.combining(c)})
  chars = sorted({c for x in parts for c in x} | set(marks))

  def one(w, strict=False):
    with sut('NFC'):
      got = fst.apply(w, f)
    if got is None:
      fail('NFC rejects text of the alphabet', input=w)
    eq(UNI(got), UNI(w), 'NFC result is not canonically equivalent', input=w, output=got)
    eq(got, A.nfc(w), 'published NFC rules', input=w)
    arabic = all('\u0600' <= c or not unicodedata.combining(c) for c in w)
    # The table lacks two compositions (listed findings): elsewhere they are not judged.
    lacks = any(UNI(w).count(c) != w.count(c) for c in '\u0626\u06c0')
    if arabic and in_order(w) and (strict or not lacks):
      eq(got, UNI(w), 'NFC', input=w)
      eq(fst.apply(got, f), got, 'NFC is not a fixed point', input=w)
      ctx.label('canonical order')
    return got != w or any(a in marks and b in marks for a, b in zip(w, w[1:]))

  def more(w):
    nt = one(w)
    got = fst.apply(w, f)
    eq(fst.apply(w, fu, True), got, 'code-point NFC', input=w)
    eq(set(fst.outputs(w, f, limit=3)), {got}, 'number of results', input=w)
    return nt

  if ctx.sub == 'pairs':
    ctx.enum('chars', al, more)
    ctx.enum('pairs', (a + b for a, b in itertools.product(parts, parts)), one)
    ctx.enum('letter mark', (a + b for a in al for b in marks), lambda w: one(w, True))
  elif ctx.sub == 'triples':
    step = 1 if ctx.thorough else 23
    ctx.enum('triples', (''.join(t) for t in itertools.islice(
        itertools.product(chars, repeat=3), ctx.seed % step, None, step)), one)
  elif ctx.sub == 'accents':
    letters = sorted({a[0] for a, _ in tab})
    # Letters with one or two marks, in words.
    unit = st.tuples(st.sampled_from(letters), st.lists(st.sampled_from(marks), max_size=3)).map(
        lambda t: t[0] + ''.join(t[1]))
    ctx.check('accents', st.lists(unit, min_size=1, max_size=4).map(''.join), more, ctx.n(4000, 60000))
  else:
    dense = st.lists(st.one_of(st.sampled_from(parts), st.sampled_from(marks), st.sampled_from(al)),
                     max_size=8).map(''.join)
    words = st.lists(st.sampled_from(al), max_size=10).map(''.join)
    if ctx.sub == 'dense':
      ctx.check('dense', dense, more, ctx.n(4000, 60000))
    elif ctx.sub == 'words':
      ctx.check('words', words, more, ctx.n(3000, 40000))
    else:
      ok = set(al)
      nfd = lambda w: ''.join(c for c in unicodedata.normalize('NFD', w) if c in ok)  # noqa: E731
      ctx.check('nfd', st.one_of(dense, words).map(nfd), more, ctx.n(4000, 60000))
