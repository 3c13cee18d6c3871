"""B04: pan-Brahmic romanization is total and local on mixed text."""
import unicodedata

from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, fail, sut, st

TARGETS = [r'//nisaba/scripts/brahmic:py!natural_translit/romanization/.*\.far']
RULE = ('Lines mixing words of several scripts with arbitrary Unicode text through '
        'brahmic.ToIso().ApplyOnText; compared with the model over the union of the published '
        'tables, and metamorphically (cutting at an out-of-script character). Non-trivial: the '
        'line has script text and other text.')
OWN = {c for s in M.SCRIPTS for c in M.script_chars(s)} | set(M.JOINERS)
# Characters that the published units cover on their own.
ALONE = {a for s in M.SCRIPTS for n in M.LETTERS for a, _ in M.table(s, n) if len(a) == 1 and
         n not in ('accept', 'subjoined_consonant') and (n, s) != ('consonant', 'Thaa')}


def subs(tier):
  return ['mixed', 'chars', 'cut', 'foreign', 'scripts']


def run(ctx):
  from nisaba.scripts import brahmic
  to = brahmic.ToIso().ApplyOnText

  def apply(w):
    with sut('ToIso().ApplyOnText'):
      return to(w)

  def one(w):
    got = apply(w)
    want = M.to_iso(w)
    if len(want) < 64 and got not in want:
      fail('romanization of mixed text', input=w, got=got, want=sorted(want)[:4])
    left = [c for c in got if c in ALONE]
    if left:
      fail('script letters left in the output', input=w, got=got, left=left)
    return any(c in OWN for c in w) and any(c not in OWN for c in w)

  fch = st.text(alphabet=st.characters(codec='utf-8', exclude_characters=''.join(OWN) + '\0'),
                min_size=1, max_size=4)
  fo = st.one_of(gen.foreign(3), fch)
  brw = [gen.any_word(s) for s in M.SCRIPTS]
  if ctx.sub == 'mixed':
    ctx.check('lines', st.lists(st.one_of(fo, *brw), max_size=6).map(''.join), one,
              ctx.n(2000, 40000))
    far = fst.far('nisaba/scripts/brahmic/iso.far')['FROM_BRAHMIC']
    def same(w):
      eq(apply(w), fst.apply(w, far), 'the API against the grammar', input=w)
      return True
    ctx.check('api', st.lists(st.one_of(fo, *brw), max_size=4).map(''.join), same, ctx.n(300, 3000))
  elif ctx.sub == 'chars':
    # Every assigned character of the plane (outside private use), alone and between letters.
    cps = [c for r in ((1, 0xd800), (0xe000, 0xe010), (0xf900, 0x10000), (0x10000, 0x11800),
                       (0x1d400, 0x1d440), (0x1f000, 0x1f700), (0x10fff0, 0x110000))
           for c in range(*r)]
    step = 1 if ctx.thorough else 3
    cps = [c for c in cps if c < 0x3100 or (c >= 0xa800 and c < 0xac00) or
           0x11000 <= c < 0x11800 or c % 16 == step]
    def char(w):
      one(w)
      got = apply(w)
      if w not in OWN:
        eq(got, w, 'an out-of-script character changed', input=w)
        for a in ('क', 'അ'):
          eq(apply(a + w + a), apply(a) + w + apply(a), 'around an out-of-script character', input=w)
      return True
    ctx.enum('chars', (chr(c) for c in cps if not 0xd800 <= c < 0xe000), char)
  elif ctx.sub == 'foreign':
    def ident(w):
      w = ''.join(c for c in w if c not in OWN)
      eq(apply(w), w, 'text without script characters changed', input=w)
      return len(w) > 1
    ctx.check('identity', st.lists(fo, max_size=5).map(''.join), ident, ctx.n(2000, 40000))
  elif ctx.sub == 'cut':
    def cut(t):
      parts, seps = t
      seps = [''.join(c for c in x if c not in OWN) or '|' for x in seps]
      w = parts[0] + ''.join(x + p for x, p in zip(seps, parts[1:]))
      want = apply(parts[0]) + ''.join(x + apply(p) for x, p in zip(seps, parts[1:]))
      got = apply(w)
      if got != want and got not in M.to_iso(w):
        fail('pieces are not romanized independently', input=w, got=got, want=want)
      if all(len(M.to_iso(p)) == 1 for p in parts):
        eq(got, want, 'pieces are not romanized independently', input=w)
      return any(parts)
    n = 3
    ctx.check('cut', st.tuples(st.lists(st.one_of(*brw), min_size=n, max_size=n),
                               st.lists(fo, min_size=n - 1, max_size=n - 1)), cut, ctx.n(1200, 20000))
  else:
    # Runs of different scripts directly next to each other.
    ctx.check('adjacent', st.lists(st.one_of(*[gen.syllable(s) for s in M.SCRIPTS]),
                                   max_size=7).map(''.join), one, ctx.n(2000, 40000))
    ctx.check('stray', st.lists(st.sampled_from(sorted(OWN)), max_size=7).map(''.join), one,
              ctx.n(2000, 40000))
