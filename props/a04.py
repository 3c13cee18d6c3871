"""A04: the Arabic-script API normalizes word by word and rejects unknown tags."""
import string

from lib import abjad as A
from lib.pbt import eq, fail, raises, sut, st

TARGETS = ['//nisaba/scripts/abjad_alphabet:py_api']
RULE = ('Lines of words over the supported alphabet, with default or generated sets of ignored '
        'characters, per language through Normalizer and ReadingNorm; sequences of normalizers in one '
        'process; tags in any case and unknown tags. Compared with the string-rewriting models and a '
        'hand-written line splitter. Non-trivial: the line has ignored characters and two words '
        'of which one changes.')


def subs(tier):
  return list(A.LANGS) + ['tags']


def model_line(lang, line, ignore):
  out, word = '', ''
  for c in line:
    if c in ignore:
      out += (A.visual(lang, A.nfc(word)) if word else '') + c
      word = ''
    else:
      word += c
  return out + (A.visual(lang, A.nfc(word)) if word else '')


def run(ctx):
  from nisaba.scripts import abjad_alphabet as api
  lang = ctx.sub
  if lang == 'tags':
    return tags(ctx, api)
  lang_tabs = [t for t in A.LANG_FILES if t != 'reading_norm']
  lhs = sorted({x for t in lang_tabs for r in A.table(t, lang) for x in r if x})
  read = sorted({x for r in A.table('reading_norm', lang) for x in r if x}) or ['ب']
  common = sorted({a for n in ('nfc', 'visual_norm', 'presentation_forms') for a, _ in A.table(n)})
  arab = [c for c in A.alphabet() if '\u0600' <= c]
  word = st.lists(st.one_of(st.sampled_from(lhs), st.sampled_from(lhs), st.sampled_from(common),
                            st.sampled_from(arab)), min_size=1, max_size=5).map(''.join)
  norm = api.Normalizer(lang)

  def line(case):
    parts, ignore = case
    text = ''.join(parts)
    with sut('Normalizer(%s)' % lang):
      n = norm if ignore is None else api.Normalizer(lang, ignore)
      got = n.ApplyOnText(text)
    want = model_line(lang, text, string.whitespace if ignore is None else ignore)
    eq(got, want, 'normalized line in ' + lang, input=text, ignore=ignore)
    return len(parts) > 2 and got != text

  def one(w):
    with sut('Normalizer(%s).ApplyOnWord' % lang):
      got = norm.ApplyOnWord(w)
    eq(got, A.visual(lang, A.nfc(w)), 'normalized word in ' + lang, input=w)
    return got != w

  ctx.check('words', word, one, ctx.n(150, 3000))
  seps = st.text(alphabet=' \t\n\r\x0b\x0c', min_size=1, max_size=2)
  ctx.check('lines', st.tuples(st.lists(st.one_of(word, seps), max_size=6), st.none()), line,
            ctx.n(120, 2000))
  sep_chars = '^-.|*+?(){}$#~&/ \t\n0aZ' + '،؟۔\u200c'
  ctx.check('ignore', st.text(alphabet=sep_chars, min_size=1, max_size=5).flatmap(
      lambda ig: st.tuples(st.lists(st.one_of(word, st.sampled_from(ig), st.sampled_from(ig + ' .')),
                                    max_size=6), st.just(ig))), line, ctx.n(80, 1500))
  rn = api.ReadingNorm(lang)

  def reading(w):
    with sut('ReadingNorm(%s)' % lang):
      got = rn.ApplyOnText(w)
    eq(got, A.reading(lang, w), 'reading norm of ' + lang, input=w)
    return got != w

  rw = st.lists(st.one_of(st.sampled_from(read), st.sampled_from(read), st.sampled_from(arab),
                          st.sampled_from(A.alphabet())), max_size=8).map(''.join)
  ctx.check('reading', rw, reading, ctx.n(500, 8000))
  ctx.enum('reading each', [p + x + s for x in read for p in ('', 'ب', 'a') for s in ('', 'ب', '.')],
           reading)


def tags(ctx, api):
  ok = {l.upper() for l in A.LANGS}

  def tag(t):
    want = t.upper() in ok
    try:
      with sut('Normalizer(%r)' % t, allow=api.TagError):
        n = api.Normalizer(t)
    except api.TagError:
      n = None
    if (n is not None) != want:
      fail('supported tags', tag=t, accepted=n is not None)
    if want:
      eq(n.ApplyOnText('ﺑٮب'), A.visual(t.lower(), A.nfc('ﺑٮب')), 'tag ' + t)
      eq(api.ReadingNorm(t).ApplyOnText('بۃ'), A.reading(t.lower(), 'بۃ'), 'tag ' + t)
    else:
      for g in (api.VisualNorm, api.ReadingNorm):
        if not raises(KeyError, g, t):
          fail('an unknown tag is not an error', tag=t, api=g.__name__)
    return True

  ctx.enum('known', sorted({f(x) for x in ('ur', 'ms', 'azb', 'fa') for f in (str, str.upper, str.title)}), tag)
  ctx.check('unknown', st.one_of(
      st.text(alphabet='abdfhiknprsuzABKRU_ ', max_size=4).filter(lambda t: t.upper() not in ok),
      st.sampled_from(['hi', 'Arab', 'ARAB', 'urdu', 'ur-PK', ' ur', 'en'])), tag, ctx.n(300, 3000))
  eq(api.Normalizer().ApplyOnText('كي'), A.visual('ur', 'كي'), 'the default tag is ur')
