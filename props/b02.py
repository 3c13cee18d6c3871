"""B02: byte and code-point grammars agree, per script and pan-script."""
from lib import abjad as A
from lib import brahmic as M
from lib import fst, gen
from lib.pbt import eq, sut, st

BR, AB = 'nisaba/scripts/brahmic/', 'nisaba/scripts/abjad_alphabet/'
TARGETS = ['//' + d[:-1] + ':' + n + v + '.far' for d, ns in (
    (BR, ('nfc', 'iso', 'visual_norm', 'wellformed', 'reading_norm', 'fixed')),
    (AB, ('nfc', 'reversible_roman', 'visual_norm', 'reading_norm')))
    for n in ns for v in ('', '_utf8')]
RULE = ('Words over the characters of each script (and romanizations of them for the reverse '
        'grammars), through the byte and the code-point version of every exported rule; '
        'single-script text through the per-script and the pan-Brahmic grammar. Non-trivial: '
        'the grammar has an output that differs from the input, or the word is accepted.')


def subs(tier):
  return ['br.' + s for s in M.SCRIPTS] + ['ab.' + l for l in A.LANGS] + ['ab.Arab', 'br.Mlym.fixed']


def pair(path, rule):
  return fst.far(path + '.far')[rule], fst.far(path + '_utf8.far')[rule]


def same(ctx, name, w, p):
  with sut(name):
    a = fst.best_outputs(w, p[0], limit=8)
    b = fst.best_outputs(w, p[1], True, limit=8)
  if len(a) >= 8 or len(b) >= 8:      # many ties: compare existence only
    eq(bool(a), bool(b), name + ': byte and code-point versions', input=w)
  else:
    eq(b, a, name + ': code-point version against byte version', input=w)
  return bool(a) and (a != {w})


def run(ctx):
  fam, _, sub = ctx.sub.partition('.')
  if fam == 'ab':
    return abjad(ctx, sub)
  if sub == 'Mlym.fixed':
    p = pair(BR + 'fixed', 'MLYM')
    pats = [a for a, _ in M.table('Mlym', 'fixed')] + list('abcdefghijklmnopqrstuvwxyz')
    ctx.check('fixed', st.lists(st.sampled_from(pats), max_size=8).map(''.join),
              lambda w: same(ctx, 'fixed', w, p), ctx.n(600, 10000))
    return
  s, U = sub, sub.upper()
  rules = [('nfc', U), ('visual_norm', U), ('wellformed', U), ('iso', 'FROM_' + U)]
  if s == 'Beng':
    rules += [('visual_norm', 'AS'), ('visual_norm', 'BN')]
  if s in ('Beng', 'Lepc', 'Mlym'):
    rules.append(('reading_norm', U))
  if s == 'Deva':
    rules.append(('reading_norm', 'HI'))
  missing = [r for r in rules if r[1] not in fst.far(BR + r[0] + '_utf8.far')
             or r[1] not in fst.far(BR + r[0] + '.far')]
  eq(missing, [], 'rules missing from an archive')
  own = set(M.script_chars(s)) | set(M.JOINERS)
  inscript = lambda w: ''.join(c for c in w if c in own)  # noqa: E731
  pan_nfc = fst.far(BR + 'nfc.far')['BRAHMIC']
  pan_iso = fst.far(BR + 'iso.far')['FROM_BRAHMIC']
  upan_nfc = fst.far(BR + 'nfc_utf8.far')['BRAHMIC']

  def one(w):
    nt = False
    for far, rule in rules:
      nt |= same(ctx, '%s %s' % (far, rule), w, pair(BR + far, rule))
    return nt

  ctx.check('words', gen.any_word(s).map(inscript), one, ctx.n(500, 8000))

  def pan(w):
    n = fst.apply(w, fst.far(BR + 'nfc.far')[U])
    eq(fst.apply(w, pan_nfc), n, 'pan-Brahmic NFC against ' + s, input=w)
    eq(fst.apply(w, upan_nfc, True), n, 'code-point pan-Brahmic NFC against ' + s, input=w)
    r = fst.best_outputs(w, fst.far(BR + 'iso.far')['FROM_' + U])
    with sut('pan-Brahmic romanization'):
      got = fst.apply(w, pan_iso)
    if r and (got not in r or len(r) > 1):
      # A unit may be cheaper in another script that shares the character.
      eq(got in M.to_iso(w), True, 'pan-Brahmic romanization of ' + s, input=w, got=got, per_script=r)
      if len(r) == 1 and M.script_to_iso(s, w) == M.to_iso(w):
        eq({got}, r, 'pan-Brahmic romanization against ' + s, input=w)
    return bool(r)

  ctx.check('pan', gen.any_word(s).map(inscript), pan, ctx.n(400, 6000))

  back = pair(BR + 'iso', 'TO_' + U)
  def reverse(w):
    r = fst.apply(w, fst.far(BR + 'iso.far')['FROM_' + U])
    if r is None:
      return False
    return same(ctx, 'TO_' + U, r, back)

  ctx.check('reverse', gen.wellformed(s).map(inscript), reverse, ctx.n(250, 4000))


def abjad(ctx, sub):
  al = list(A.alphabet())
  arab = [c for c in al if ord(c) > 0x600]
  if sub == 'Arab':
    toks = [a for n in ('nfc', 'reversible_roman') for a, _ in A.table(n)]
    ps = [('nfc', pair(AB + 'nfc', 'ARAB')), ('roman', pair(AB + 'reversible_roman', 'FROM_ARAB'))]
    back = pair(AB + 'reversible_roman', 'TO_ARAB')
  else:
    toks = [x for n in A.LANG_FILES for r in A.table(n, sub) for x in r if x] + [
        a for n in ('nfc', 'visual_norm') for a, _ in A.table(n)]
    ps = [(n, pair(AB + n, sub.upper())) for n in ('visual_norm', 'reading_norm')]
    back = None
  w_ = st.lists(st.one_of(st.sampled_from(toks), st.sampled_from(arab), st.sampled_from(al)),
                max_size=8).map(''.join)

  def one(w):
    nt = False
    for n, p in ps:
      nt |= same(ctx, n + ' ' + sub, w, p)
    if back:
      r = fst.apply(w, ps[1][1][0])
      if r is not None:
        nt |= same(ctx, 'TO_ARAB', r, back)
    return nt

  ctx.check('words', w_, one, ctx.n(600, 10000))
  if back:
    ctx.check('roman', st.lists(st.sampled_from([b for _, b in A.table('reversible_roman')]),
                                max_size=6).map(''.join),
              lambda w: same(ctx, 'TO_ARAB', w, back), ctx.n(400, 5000))
