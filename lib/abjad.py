"""Reference models of the abjad/alphabet (Perso-Arabic) operations."""
import functools
import string

from lib.brahmic import TABLES, rows, scan, unordered, JOINERS

LANGS = ('ar', 'azb', 'bal', 'ckb', 'fa', 'ks', 'ms', 'pa', 'prs', 'ps', 'sd',
         'ug', 'ur', 'uz')
BASE = 'abjad_alphabet/data/Arab/'
LANG_FILES = ('reading_norm', 'visual_norm', 'visual_norm_final_isolated',
              'visual_norm_isolated', 'visual_norm_nonfinal')


def table(name, lang=None):
  return rows(BASE + (lang + '/' if lang else '') + name + '.tsv')


@functools.lru_cache(maxsize=None)
def alphabet():
  """Every character that the normalizers are specified for."""
  cs = set()
  for n in ('nfc', 'presentation_forms', 'reversible_roman'):
    for a, b in table(n):
      cs.update(a + b)
  for lang in LANGS:
    for n in LANG_FILES:
      for a, b in table(n, lang):
        cs.update(a + b)
  return tuple(sorted((cs | set(string.printable) | set(JOINERS)) - set('[]\\')))


def nfc(text):
  return unordered(text, table('nfc'))


def common(text):
  text = unordered(text, table('presentation_forms'))
  text = unordered(text, table('nfc'))
  return unordered(text, table('visual_norm'))


def _nonfinal(text, rules):
  """Left to right; a match counts only when a character follows it."""
  m = dict(rules)
  lens = sorted({len(a) for a in m}, reverse=True)
  out, i = [], 0
  while i < len(text):
    for n in lens:
      s = text[i:i + n]
      if len(s) == n and s in m and i + n < len(text):
        out.append(m[s])
        i += n
        break
    else:
      out.append(text[i])
      i += 1
  return ''.join(out)


def visual(lang, text):
  text = common(text)
  text = unordered(text, table('visual_norm', lang))
  text = _nonfinal(text, table('visual_norm_nonfinal', lang))
  # Word-finally, with something before it.
  for a, b in table('visual_norm_final_isolated', lang):
    if text.endswith(a) and len(text) > len(a):
      text = text[:-len(a)] + b
      break
  for a, b in table('visual_norm_final_isolated', lang) + table('visual_norm_isolated', lang):
    if text == a:
      text = b
      break
  return text


def reading(lang, text):
  return unordered(text, table('reading_norm', lang))


def roman_outputs(text, limit=64):
  """All segmentations of text into romanization units, romanized."""
  best = [set() for _ in range(len(text) + 1)]
  best[0] = {''}
  for i in range(len(text)):
    if not best[i]:
      continue
    for a, b in table('reversible_roman'):
      if text.startswith(a, i) and len(best[i + len(a)]) < limit:
        best[i + len(a)] |= {x + b for x in best[i]}
  return best[-1]
