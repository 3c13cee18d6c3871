"""A03: Arabic-script visual norm applies positional rules exactly."""
from lib import abjad as A
from lib import fst
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/abjad_alphabet:visual_norm.far']
RULE = ('Words made of the left-hand sides of the rules (presentation forms, compositions, common '
        'and per-language rules, positional rules) and other characters of the alphabet, per '
        'language; every rule in isolated, initial, medial and final position; compared with a '
        'string-rewriting model over the published tables. Non-trivial: a rule beyond composition acts.')


def subs(tier):
  return list(A.LANGS)


def run(ctx):
  lang = ctx.sub
  f = fst.far('nisaba/scripts/abjad_alphabet/visual_norm.far')[lang.upper()]
  lang_tabs = [t for t in A.LANG_FILES if t != 'reading_norm']
  lhs = sorted({x for t in lang_tabs for r in A.table(t, lang) for x in r if x})
  common = sorted({a for n in ('nfc', 'visual_norm', 'presentation_forms') for a, _ in A.table(n)})
  al = list(A.alphabet())
  arab = [c for c in al if '\u0600' <= c]

  def one(w):
    with sut('visual normalization'):
      got = fst.apply(w, f)
    eq(got, A.visual(lang, w), 'visual norm of ' + lang, input=w)
    return got != A.nfc(w)

  def unique(w):
    nt = one(w)
    eq(len(fst.outputs(w, f, limit=3)), 1, 'number of results', input=w)
    return nt

  # Each pattern in each position, and next to another pattern of the language.
  around = ['ب', 'ا', 'ی', '.', 'a']
  singles = [p + x + s for x in sorted(set(lhs + common)) for p in ['', 'ب', 'a'] for s in ['', 'ب', '.']]
  ctx.enum('positions', singles if ctx.thorough else
           [x for i, x in enumerate(singles) if len(x) < 2 or i % 2 == ctx.seed % 2], one)
  ctx.enum('pairs', [a + b for a in lhs for b in lhs + around] + [b + a for a in lhs for b in around],
           one)
  tok = st.one_of(st.sampled_from(lhs), st.sampled_from(lhs), st.sampled_from(common),
                  st.sampled_from(arab), st.sampled_from(al))
  ctx.check('words', st.lists(tok, max_size=7).map(''.join), one, ctx.n(400, 8000))
  ctx.check('dense', st.lists(st.sampled_from(lhs), min_size=1, max_size=6).map(''.join), one,
            ctx.n(500, 8000))
  ctx.check('unique', st.lists(tok, max_size=5).map(''.join), unique, ctx.n(60, 1000))
