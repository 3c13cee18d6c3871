"""N12: every ISO word has one pronunciation, given by the language's rules."""
from props import n08_util as m

TARGETS = m.targets(['ipa'])
RULE = ('Random ISO words (syllables of every letter, sequences the rules are about, loose letters) and all pairs of '
        'letters in changing surroundings, for each language; the pronunciations are compared with a reference model '
        'of the rules with regular expressions. Non-trivial: the result is not the letters one by one.')


def subs(tier):
  return m.LANGS


def run(ctx):
  symbols = {ipa for ipa, _ in m.PHONEMES.values()}
  letters = set(''.join(symbols))

  def extra(word, scheme, got):
    from lib.pbt import fail
    if set(got) - letters:
      fail('something that is not IPA', word=word, got=got)
  _, one = m.run(ctx, ['ipa'], extra)
  cases = [[w, 'ipa'] for w in m.pairs()]
  ctx.enum('pairs', cases, lambda case: one(case, True))
