"""B09: the normalizing acceptor normalizes or rejects, word by word."""
import string

from lib import brahmic as M
from lib import gen
from lib.pbt import eq, fail, sut, st

TARGETS = [r'//nisaba/scripts/brahmic:py!natural_translit/romanization/.*\.far']
RULE = ('Well-formed words, their neighbours, random unit sequences and arbitrary text, alone and in '
        'lines with default or generated sets of ignored characters, per script; compared with the '
        'reference models of the visual norm and of well-formedness and a hand-written line '
        'splitter. Non-trivial: the word is normalized to something else or rejected; the line has '
        'ignored characters and two words.')


def subs(tier):
  return M.SCRIPTS + ['scripts']


def model_word(s, w):
  n = M.visual(s, w)
  return n if M.wellformed(s, n) else None


def model_line(s, line, ignore):
  out, word = [], ''
  for c in line + '\0':
    if c in ignore or c == '\0':
      if word:
        n = model_word(s, word)
        if n is None:
          return None
        out.append(n)
        word = ''
      if c != '\0':
        out.append(c)
    else:
      word += c
  return ''.join(out)


def run(ctx):
  from nisaba.scripts import brahmic
  s = ctx.sub
  if s == 'scripts':
    return scripts(ctx, brahmic)
  plain = brahmic.NormalizingAcceptor(s)

  def call(fn, arg):
    with sut('NormalizingAcceptor(%s)' % s, allow=brahmic.IllFormedError):
      try:
        return fn(arg)
      except brahmic.IllFormedError:
        return None

  def word(w):
    want = model_word(s, w)
    eq(call(plain.ApplyOnWord, w), want, 'ApplyOnWord (None: ill-formed) in ' + s, input=w)
    ctx.label('ill-formed' if want is None else 'normalized')
    return want != w

  def line(t):
    parts, ignore = t
    text = ''.join(parts)
    acc = plain if ignore is None else brahmic.NormalizingAcceptor(s, ignore)
    want = model_line(s, text, string.whitespace if ignore is None else ignore)
    eq(call(acc.ApplyOnText, text), want, 'ApplyOnText (None: ill-formed) in ' + s, input=text,
       ignore=ignore)
    ctx.label('line rejected' if want is None else 'line normalized')
    return len(parts) > 2 and want is not None

  noisy = st.tuples(gen.wellformed(s, 2), gen.foreign(2), gen.wellformed(s, 1)).map(''.join)
  ctx.check('words', st.one_of(gen.any_word(s), gen.any_word(s), noisy), word, ctx.n(900, 20000))
  wf = gen.wellformed(s, 3)
  seps = st.text(alphabet=' \t\n\r\x0b\x0c', min_size=1, max_size=2)
  ctx.check('lines', st.tuples(st.lists(st.one_of(wf, wf, wf, gen.any_word(s), seps, seps, seps),
                                        max_size=7), st.none()), line, ctx.n(300, 6000))
  sep_chars = '[]^-\\.|*+?(){}$#~&/ \t\n0aZ।॥“”‘’…' + M.ZWNJ
  def ignored(ig):
    ig = ''.join(ig)
    return st.tuples(st.lists(st.one_of(wf, wf, gen.any_word(s), st.sampled_from(ig),
                                        st.sampled_from(ig), gen.foreign(1) if len(ig) > 3 else wf),
                              max_size=7), st.just(ig))
  ctx.check('ignore', st.lists(st.sampled_from(sep_chars), min_size=1, max_size=6, unique=True)
            .flatmap(ignored), line, ctx.n(300, 6000))


def scripts(ctx, brahmic):
  ok = {x.upper() for x in M.SCRIPTS}
  vis = ok | {'AS', 'BN'}

  def tag(t):
    with sut('constructor', allow=brahmic.ScriptError):
      try:
        acc = brahmic.NormalizingAcceptor(t)
      except brahmic.ScriptError:
        acc = None
    want = t.upper() in ok
    if (acc is not None) != want:
      fail('supported scripts', script=t, accepted=acc is not None)
    if acc is not None:
      w = M.lhs(t.capitalize(), 'consonant')[0]
      if t.capitalize() == 'Thaa':
        w += M.lhs('Thaa', 'vowel_sign')[0]
      eq(acc.ApplyOnWord(w), model_word(t.capitalize(), w), 'script ' + t)
    return True

  ctx.enum('known', sorted({f(x) for x in M.SCRIPTS for f in (str, str.upper, str.lower, str.swapcase)}),
           tag)
  ctx.check('unknown', st.one_of(
      st.text(alphabet='abdegnortuvABDEGNV_ ', max_size=6),
      st.sampled_from(['as', 'bn', 'hi', 'Latn', 'Arab', 'BRAHMIC', 'FROM_DEVA', 'Tamil', 'dev', ' deva'])),
            tag, ctx.n(300, 3000))
