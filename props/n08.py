"""N08: natural romanization turns every ISO word into one plain Latin word."""
import re

from props import n08_util as m

TARGETS = m.targets(['nat'])
RULE = ('Random ISO words for each language, compared with a reference model of the rules, between the byte and '
        'code-point grammars and the end-to-end grammars; pairs of letters enumerated. '
        'Non-trivial: the result is not the letters one by one.')


def subs(tier):
  return m.LANGS


def run(ctx):
  from lib.pbt import fail

  def extra(word, scheme, got):
    if not re.fullmatch('[a-zA-Z]*' if ctx.sub == 'hi' else '[a-z]*', got):
      fail('not plain Latin', word=word, got=got)
  _, one = m.run(ctx, ['nat'], extra)
  step = 1 if ctx.thorough else 2
  cases = [[w, 'nat'] for i, w in enumerate(m.pairs()) if i % step == ctx.seed % step]
  ctx.enum('pairs', cases, lambda case: one(case, True))
