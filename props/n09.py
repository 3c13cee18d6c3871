"""N09: the pan-South-Asian schemes and how they are related."""
import re

from props import n08_util as m

TARGETS = m.targets(['psaf', 'psac'])
RULE = ('Random ISO words for each language in both schemes, compared with a reference model; the coarse scheme '
        'compared with the fine one without its long vowels and repetitions. '
        'Non-trivial: the result is not the letters one by one; the two schemes differ.')


def squeeze(text):
  old = None
  while text != old:
    old, text = text, m.no_repetition(text)
  return text


def subs(tier):
  return m.LANGS


def run(ctx):
  from lib.pbt import eq, fail, st

  def extra(word, scheme, got):
    if not re.fullmatch('[a-z]*', got):
      fail('not plain Latin', word=word, got=got)
  rules, one = m.run(ctx, ['psaf', 'psac'], extra)

  def related(words):
    res = [(m.outputs(rules['psaf'][0], w), m.outputs(rules['psac'][0], w)) for w in words]
    for w, (fine, coarse) in zip(words, res):
      # Up to length and repetition they're the same, except for vocalics.
      if not re.search('[lr]\u0325', w):
        eq(squeeze(coarse[0]), squeeze(fine[0]), 'coarse scheme up to repetition', word=w)
    return any(a != b for a, b in res)
  ctx.check('related', st.lists(m.words(st), min_size=1, max_size=3), related, ctx.n(60, 2000))
  step = 1 if ctx.thorough else 3
  cases = [[w, k] for i, w in enumerate(m.pairs()) if i % step == ctx.seed % step for k in ('psaf', 'psac')]
  ctx.enum('pairs', cases, lambda case: one(case, True))
