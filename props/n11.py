"""N11: English letters are spelled out letter by letter in every language."""
import json
import os
import unicodedata

TARGETS = ['//nisaba/scripts/natural_translit/deromanization:en_spellout'] + [
    '//nisaba/scripts/brahmic:' + n for n in ('nfc', 'wellformed')]
RULE = ('Random words of upper and lower case Latin letters in every language and script, compared with the spellings of '
        'their letters (frozen in spec/spellout.json) joined by the rules of the script; words with anything else are '
        'refused; every word of up to two letters enumerated. Non-trivial: at least two letters.')
PATH = 'nisaba/scripts/natural_translit/deromanization/en_spellout%s.far'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def table():
  return json.load(open(os.path.join(HERE, 'spec/spellout.json'), encoding='utf8'))


def subs(tier):
  return sorted(table())


def spelled(letters, rule, word):
  parts = [letters[c] for c in word.lower()]
  if rule.endswith('ARAB'):
    return ' '.join(parts)
  res = ''.join(parts)
  return res[:-1] if res.endswith('\u200c') else res


def run(ctx):
  from lib import fst as f
  from lib.pbt import eq, fail, st
  from props.n08_util import outputs
  letters = table()[ctx.sub]
  script = ctx.sub.split('_')[1].capitalize()
  byte, utf8 = (f.far(PATH % x)[ctx.sub] for x in ('', '_utf8'))

  def one(word, cheap=False):
    got = outputs(byte, word)
    eq(got, [spelled(letters, ctx.sub, word)], 'spelling', word=word)
    if not cheap:
      eq(outputs(utf8, word, True), got, 'spelling of the code-point grammar', word=word)
      eq(outputs(byte, word.swapcase()), got, 'spelling with the other case', word=word)
    eq(unicodedata.normalize('NFC', got[0]), got[0], 'normalized spelling', word=word)
    if script != 'Arab' and len(word) == 1 and not f.accepts(got[0], f.far('nisaba/scripts/brahmic/wellformed.far')[script.upper()]):
      fail('the spelling is not well-formed', word=word, got=got[0])
    return len(word) > 1
  ctx.check('words', st.text(LETTERS + LETTERS.upper(), min_size=1, max_size=12), one, ctx.n(150, 5000))
  short = [a + b for a in [''] + list(LETTERS + LETTERS.upper()) for b in LETTERS + LETTERS.upper()]
  step = 1 if ctx.thorough else 4
  ctx.enum('short', [w for i, w in enumerate(short) if len(w) == 1 or i % step == ctx.seed % step],
           lambda w: one(w, True))

  def other(case):
    word, pos, char = case
    word = word[:pos] + char + word[pos:]
    if outputs(byte, word) or outputs(utf8, word, True):
      fail('something besides letters is spelled out', word=word)
    return True
  ctx.check('other', st.tuples(st.text(LETTERS, max_size=4), st.integers(0, 4),
                               st.characters(exclude_categories=['Cs'], exclude_characters=LETTERS + LETTERS.upper() + '\0')
                               ).map(list), other, ctx.n(60, 2000))
