"""B01: Brahmic NFC equals Unicode canonical composition."""
import unicodedata

from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, fail, sut, st
from props.b01_util import in_order

TARGETS = ['//nisaba/scripts/brahmic:nfc.far', '//nisaba/scripts/brahmic:nfc_utf8.far']
RULE = ('Unit sequences, every pair of units, every character of the Unicode blocks and '
        'canonically decomposed words per script, and mixed-script lines with foreign '
        'characters; compared with unicodedata (NFC, canonical equivalence), with the published '
        'rules and with itself (idempotence). Non-trivial: NFC changes the text.')


def subs(tier):
  return M.SCRIPTS + ['mixed']


UNI = lambda w: unicodedata.normalize('NFC', w)  # noqa: E731
BLOCK_ASSIGNED = [chr(c) for r in ((0x780, 0x7c0), (0x900, 0xe00), (0x1700, 0x1740),
                                   (0x1900, 0x1950), (0x1a00, 0x1a20), (0x1c00, 0x1c50),
                                   (0xa800, 0xa830), (0xaae0, 0xab00), (0xabc0, 0xac00),
                                   (0x11400, 0x114e0), (0x11680, 0x116d0))
                  for c in range(*r) if unicodedata.category(chr(c)) != 'Cn']


def run(ctx):
  byte = fst.far('nisaba/scripts/brahmic/nfc.far')
  utf8 = fst.far('nisaba/scripts/brahmic/nfc_utf8.far')
  if ctx.sub == 'mixed':
    return mixed(ctx, byte['BRAHMIC'])
  script = ctx.sub
  f, fu, pan = byte[script.upper()], utf8[script.upper()], byte['BRAHMIC']
  own = set(M.script_chars(script)) | set(M.JOINERS)

  def one(w):
    with sut('NFC'):
      got = fst.apply(w, f)
    if got is None:
      fail('NFC rejects', input=w)
    eq(UNI(got), UNI(w), 'NFC result is not canonically equivalent', input=w, got_raw=got)
    if in_order(w):
      eq(got, UNI(w), 'NFC of %s' % script, input=w)
      ctx.label('canonical order')
    eq(got, M.nfc(script, w), 'published NFC rules of %s' % script, input=w)
    if got != w:
      eq(fst.apply(got, f), got, 'NFC is not idempotent', input=w)
    return got != w

  def variants(w):
    nt = one(w)
    got = fst.apply(w, f)
    if all(c in own for c in w):
      eq(fst.apply(w, fu, True), got, 'code-point NFC', input=w)
    eq(fst.apply(w, pan), got, 'pan-Brahmic NFC', input=w)
    eq(len(set(fst.outputs(w, f, limit=3))), 1, 'number of results', input=w)
    return nt

  # Every assigned character of the blocks, alone and decomposed.
  chars = [c for c in BLOCK_ASSIGNED if script_of(c) == script]
  singles = chars + [unicodedata.normalize('NFD', c) for c in chars]
  ctx.enum('chars', singles, one)
  ctx.enum('pairs', gen.pairs(script), one)
  ctx.check('words', gen.word(script, 8), variants, ctx.n(700, 12000))
  rp = gen.rule_parts(script, ('nfc',))
  if rp:
    # Dense in composable pieces.
    dense = st.lists(st.one_of(st.sampled_from(rp), st.sampled_from(rp),
                               st.sampled_from(gen.tokens(script))), max_size=8).map(''.join)
    ctx.check('dense', dense, variants, ctx.n(1200, 20000))
    ctx.check('nfd', gen.any_word(script).map(lambda w: unicodedata.normalize('NFD', w)),
              variants, ctx.n(500, 8000))


_NAMES = {'Beng': 'BENGALI', 'Bugi': 'BUGINESE', 'Deva': 'DEVANAGARI', 'Gujr': 'GUJARATI',
          'Guru': 'GURMUKHI', 'Knda': 'KANNADA', 'Lepc': 'LEPCHA', 'Limb': 'LIMBU',
          'Mlym': 'MALAYALAM', 'Mtei': 'MEETEI', 'Newa': 'NEWA', 'Orya': 'ORIYA',
          'Sinh': 'SINHALA', 'Sylo': 'SYLOTI', 'Takr': 'TAKRI', 'Taml': 'TAMIL',
          'Telu': 'TELUGU', 'Tglg': 'TAGALOG', 'Thaa': 'THAANA', 'Tirh': 'TIRHUTA'}


def script_of(c):
  n = unicodedata.name(c, '').split(' ')[0]
  for s, p in _NAMES.items():
    if n == p:
      return s
  return None


def mixed(ctx, pan):
  piece = st.one_of(*[gen.word(s, 3) for s in M.SCRIPTS], gen.foreign(3))
  own = {c for s in M.SCRIPTS for c in M.script_chars(s)} | set(M.JOINERS)

  def one(pieces):
    w = ''.join(pieces)
    with sut('NFC'):
      got = fst.apply(w, pan)
    if got is None:
      fail('NFC rejects', input=w)
    eq(got, M.nfc_all(w), 'pan-Brahmic NFC of mixed text', input=w)
    eq([c for c in got if c not in own], [c for c in w if c not in own],
       'foreign characters changed', input=w, got_raw=got)
    eq(fst.apply(got, pan), got, 'not idempotent', input=w)
    return got != w and any(c not in own for c in w)

  ctx.check('lines', st.lists(piece, max_size=6), one, ctx.n(2500, 40000))
