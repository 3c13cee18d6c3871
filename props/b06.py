"""B06: visual normalization respects words: total, stable, well-formed."""
import re
import unicodedata

from lib import brahmic as M
from lib import gen
from lib.pbt import eq, fail, sut, st
from props.b01_util import in_order

TARGETS = [r'//nisaba/scripts/brahmic:py!natural_translit/romanization/.*\.far']
RULE = ('Well-formed words generated from the syllable structure, unit sequences, and mixtures with '
        'arbitrary Unicode text, through brahmic.VisualNorm(tag).ApplyOnText, per script and '
        'language variant; oracles are invariants (fixed point, well-formedness, canonical '
        'equivalence of spellings, joiners, foreign characters). Non-trivial: the norm changes the '
        'word, or the word has several syllables.')
UNITS = [(s, '') for s in M.SCRIPTS] + [('Beng', 'as'), ('Beng', 'bn')]


def subs(tier):
  return ['%s.%s' % u for u in UNITS]


def run(ctx):
  s, lang = ctx.sub.split('.')
  from nisaba.scripts import brahmic
  vn = brahmic.VisualNorm(lang or s).ApplyOnText
  wf = brahmic.WellFormed(s).AcceptText
  own = set(M.script_chars(s)) | set(M.JOINERS)
  cons = tuple(M.lhs(s, 'consonant'))
  keep = [a for a, _ in M.table(s, 'preserve')]
  behind = '(?:' + '|'.join('(?<=%s)' % re.escape(c) for c in sorted(set(cons))) + ')'
  prot = re.compile('%s(?:%s)(?=%s)' % (
      behind, '|'.join(map(re.escape, sorted(keep, key=len, reverse=True))),
      '|'.join(map(re.escape, cons)))) if keep else None

  def apply(w):
    with sut('VisualNorm(%s)' % (lang or s)):
      return vn(w)

  def invariants(w):
    got = apply(w)
    eq([c for c in got if c not in own], [c for c in w if c not in own],
       'characters of other scripts changed', input=w, output=got)
    # Language rewrites come after the clean-up and bring no joiner.
    rest = prot.sub('', got) if prot else got
    if any(j in rest for j in M.JOINERS):
      fail('unprotected joiner left', input=w, output=got)
    return got

  def well(w):
    if not wf(w):
      fail('a word built from syllables is not well-formed', input=w)
    if M.nfc(s, w) != w:
      # Two exceptional strings may touch and compose, e.g. Malayalam 0D7B 0D46 + 0D3E 0D02.
      w = M.nfc(s, w)
      if not wf(w):
        return False
    got = invariants(w)
    if not wf(got):
      fail('the visual norm of a well-formed word is ill-formed', input=w, output=got)
    eq(apply(got), got, 'the visual norm of a well-formed word is not a fixed point', input=w)
    return got != w or len(w) > 4

  def spellings(w):
    if not in_order(w):
      return False
    got = apply(w)
    d, c = unicodedata.normalize('NFD', w), unicodedata.normalize('NFC', w)
    for v in (d, c):
      if in_order(v):
        eq(apply(v), got, 'canonically equivalent spellings normalize differently', input=w, other=v)
    return d != w or c != w

  def total(w):
    got = invariants(w)
    return got != w

  ctx.check('wellformed', gen.wellformed(s), well, ctx.n(1000, 20000))
  ctx.check('spellings', gen.any_word(s), spellings, ctx.n(600, 10000))
  ctx.check('words', gen.word(s, 9), total, ctx.n(700, 12000))
  ctx.check('mixed', st.lists(st.one_of(gen.foreign(3), gen.any_word(s)), max_size=5).map(''.join),
            total, ctx.n(400, 6000))
  link = sorted(set(keep + list(M.JOINERS) + M.lhs(s, 'virama')))
  ctx.check('joiners', st.lists(st.one_of(st.sampled_from(link), st.sampled_from(cons),
                                          st.sampled_from(gen.tokens(s))), max_size=9).map(''.join),
            total, ctx.n(600, 10000))
