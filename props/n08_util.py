"""Reference model of the ISO to phonemes to Latin / IPA pipelines.

Written from the documentation of the rules, with every symbol one character
and every rule an ordinary regular expression: <..> is a grapheme, {..} a
phoneme, `..` a piece of Latin (or nothing), = aligns graphemes with what they
stand for.
"""
import re

_codes = {}
_names = []
_GR, _PH, _TR = 0xE000, 0xE400, 0xE800


def _code(token):
  if token == '=':
    return '='
  if token not in _codes:
    base = {'<': _GR, '{': _PH, '`': _TR}[token[0]]
    _codes[token] = chr(base + sum(ord(c) // 0x400 == base // 0x400 for c in _codes.values()))
  return _codes[token]


def s(text):
  """Markup to symbols; characters outside the markup stay (regex syntax)."""
  return re.sub(r'<[^<>]+>|\{[^{}]+\}|`[^`]*`', lambda m: _code(m.group()), text)


def show(text):
  back = {v: k for k, v in _codes.items()}
  return ''.join(back.get(c, c) for c in text)


def cls(names, kind='{}'):
  """A class of symbols."""
  return '[%s]' % ''.join(_code(kind[0] + n + kind[-1]) for n in names.split())


G = '[\ue000-\ue3ff]'
R = '[\ue400-\uebff]'
SKIP_L = '(?:%s*=)?' % G
SKIP_R = '(?:=%s*)?' % R
SKIP = '(?:%s|%s)' % (SKIP_L, SKIP_R)
EOW = SKIP_R + r'\Z'
BOW = r'\A' + SKIP_L


def cat(a, b):
  """Right sides next to each other, maybe of neighbouring alignments."""
  return '(?:%s)%s(?:%s)' % (a, SKIP_L, b)


class Rule:
  """Obligatory rewriting from left to right; all pairs at the same time."""

  def __init__(self, pairs, pre=None, fol=None):
    self.pairs = [(re.compile(s(o)), s(n)) for o, n in pairs]
    self.pre = re.compile('(?:%s)%s\\Z' % (s(pre), SKIP)) if pre is not None else None
    self.fol = re.compile('%s(?:%s)' % (SKIP, s(fol))) if fol is not None else None

  def hits(self, out, word, i):
    if self.pre is not None and not self.pre.search(out):
      return set()
    res = set()
    for old, new in self.pairs:
      if old.pattern == '':
        ends = [i]
      elif not old.match(word, i):
        continue
      else:
        ends = [j for j in range(i + 1, len(word) + 1) if old.fullmatch(word, i, j)]
      for j in ends:
        if self.fol is None or self.fol.match(word[j:]):
          res.add((j, new))
    return res

  def __call__(self, words):
    done = set()
    for word in words:
      todo = [('', 0, False)]
      while todo:
        out, i, inserted = todo.pop()
        hits = set() if inserted else self.hits(out, word, i)
        moved = False
        for j, new in hits:
          if j == i:
            todo.append((out + new, i, True))
          else:
            todo.append((out + new, j, False))
          moved = True
        if moved:
          continue
        if i == len(word):
          done.add(out)
        else:
          todo.append((out + word[i], i + 1, False))
    return done


def rew(old, new, pre=None, fol=None):
  return [Rule([(old, new)], pre, fol)]


def reas(gr, old, new, pre=None, fol=None):
  return [Rule([('%s=%s' % (gr, old), '%s=%s' % (gr, new))], pre, fol)]


def merge(l1, r1, l2, r2, new, pre=None, fol=None):
  return [Rule([('%s=%s%s=%s' % (l1, r1, l2, r2), '%s%s=%s' % (l1, l2, new))], pre, fol)]


# Graphemes -----------------------------------------------------------------

VOWELS = {  # ISO sign: (name, phonemes)
    'a': ('a', '{_}'), 'ā': ('aa', '{a}{:}'), 'æ': ('ac', '{ae}'), 'ạ': ('an', '{a}'), 'e': ('e', '{e}'),
    'ē': ('ee', '{e}{:}'), 'ê': ('ec', '{ae}'), 'i': ('i', '{i}'), 'ī': ('ii', '{i}{:}'), 'o': ('o', '{o}'),
    'ō': ('oo', '{o}{:}'), 'ô': ('oc', '{oh}'), 'u': ('u', '{u}'), 'ū': ('uu', '{u}{:}'),
    'r̥': ('rv', '{r}{S}'), 'l̥': ('lv', '{l}{S}'), 'r̥̄': ('rrv', '{r}{S}{:}'), 'l̥̄': ('llv', '{l}{S}{:}'),
    'ai': ('ai', '{a}{+}{i}'), 'au': ('au', '{a}{+}{u}'), 'ạ̄': ('aan', '{a}{:}')}
CH, DJ = '{t}{+}{sh}', '{d}{+}{zh}'
CONSONANTS = {
    'b': ('b', '{b}'), 'c': ('c', CH), 'd': ('d', '{di}'), 'ḍ': ('dd', '{dd}'), 'f': ('f', '{f}'), 'g': ('g', '{g}'),
    'ġ': ('gg', '{gh}'), 'h': ('h', '{h}'), 'j': ('j', DJ), 'k': ('k', '{k}'), 'l': ('l', '{l}'), 'ḷ': ('ll', '{ll}'),
    'ḻ': ('lr', '{rru}'), 'm': ('m', '{m}'), 'n': ('n', '{ni}'), 'ñ': ('ny', '{ny}'), 'ṅ': ('ng', '{ng}'),
    'ṇ': ('nn', '{nn}'), 'ṉ': ('na', '{n}'), 'p': ('p', '{p}'), 'q': ('q', '{q}'), 'r': ('r', '{rt}'),
    'ṛ': ('rd', '{rd}'), 'ṟ': ('rr', '{r}'), 's': ('s', '{s}'), 'ś': ('sh', '{sh}'), 'ṣ': ('ss', '{ss}'),
    't': ('t', '{ti}'), 'ṭ': ('tt', '{tt}'), 'ṯ': ('ta', '{t}'), 'v': ('v', '{vu}'), 'x': ('x', '{kh}'),
    'y': ('y', '{y}'), 'ẏ': ('yy', '{y}{H}'), 'z': ('z', '{z}')}
ASPIRABLE = 'b c d ḍ g j k p ṛ t ṭ'.split()
CODAS = {'’': ('avg', '{sil}'), 'ˑ': ('nkt', '{sil}'), 'ḥ': ('vis', '{h}'), 'ḵ': ('vis_ta', '{g}'), 'ṁ': ('ans', '{N}'),
         '\u0310': ('cnd_dia', '{sil}'), 'ḫ': ('upadh', '{h}'), 'ẖ': ('jihva', '{h}'), '˖': ('add', '{sil}'),
         'ṃ': ('tip', '{N}')}
OTHERS = {'õ': ('ot', '{o}{:}'), 'ʰ': ('asp', '{H}'), '\u0325': ('vcl', '{S}'), '\u0304': ('long', '{sil}'),
          'ⸯ': ('chl', '{sil}'), '\u0306': ('eye', '{sil}'), '.': ('ind', '{sil}'), '-': ('sgn', '{sil}'),
          '+': ('zwj', '{sil}'), '|': ('zwn', '{sil}')}
DEAD = {'kⸯ': ('k_chl', '{k}'), 'lⸯ': ('l_chl', '{l}'), 'ḷⸯ': ('ll_chl', '{ll}'), 'nⸯ': ('n_chl', '{n}'),
        'ṇⸯ': ('nn_chl', '{nn}'), 'ṟⸯ': ('rr_chl', '{r}'), 'rⸯ': ('reph', '{rt}'), 'r\u0306': ('r_eye', '{rt}')}
ASPIRATED = {c + 'ʰ': (CONSONANTS[c][0] + 'h', CONSONANTS[c][1] + '{H}') for c in ASPIRABLE}
OM = {'õm': ('om', '{o}{:}{m}'), 'm\u0310': ('cnd', '{N}')}

SINGLE = {k: v for d in (VOWELS, CONSONANTS, CODAS, OTHERS) for k, v in d.items() if len(k) == 1}
NAME = {k: v[0] for k, v in SINGLE.items()}
SOUND = {}
for _d in (VOWELS, CONSONANTS, CODAS, OTHERS, DEAD, ASPIRATED, OM):
  SOUND.update(_d.values())
for _n, _p in VOWELS.values():
  if _n != 'aan':
    SOUND[_n + '_i'] = '{a}' if _n == 'a' else _p


def _compose(table):
  return Rule([(''.join('<%s>' % NAME[c] for c in iso), '<%s>' % name) for iso, (name, _) in table.items()])


_pick = lambda *ks: {k: VOWELS[k] for k in ks}
_SIGNS = [n for n, _ in VOWELS.values() if n != 'aan']
GRAPHEME_RULES = [
    _compose(_pick('r̥̄', 'l̥̄')), _compose(_pick('r̥', 'l̥', 'ai', 'au', 'ạ̄')),
    Rule([('', '<ind>')], r'\A', '|'.join('<%s>' % n for n in _SIGNS)),
    Rule([('<ind><%s>' % n, '<%s_i>' % n) for n in _SIGNS]),
    _compose({**ASPIRATED, **DEAD}), _compose(OM)]


def to_txn(word):
  """The default pronunciation, aligned."""
  cur = {''.join(s('<%s>' % NAME[c]) for c in word)}
  for rule in GRAPHEME_RULES:
    cur = rule(cur)
  res = set()
  for w in cur:
    res.add(''.join(c + s('=' + SOUND[show(c)[1:-1]]) for c in w))
  return res


# Phonemes: name: (IPA, pan-South-Asian Latin) --------------------------------

PHONEMES = {
    'sil': ('', ''), 'Z': ('̯', ''), 'N': ('~', 'n'), ':': ('ː', ''), 'H': ('ʰ', 'h'), '_': ('', ''), 'V': ('', ''),
    'S': ('̍', 'i'), 'a': ('a', 'a'), 'ae': ('æ', 'ae'), 'e': ('e', 'e'), 'ec': ('ə', 'a'), 'eh': ('ɛ', 'e'),
    'i': ('i', 'i'), 'o': ('o', 'o'), 'oh': ('ɔ', 'o'), 'u': ('u', 'u'), 'a}{+}{i': ('a͡i', 'ai'),
    'a}{+}{u': ('a͡u', 'au'), 'm': ('m', 'm'), 'ni': ('n̪', 'n'), 'n': ('n', 'n'), 'nn': ('ɳ', 'n'), 'ny': ('ɲ', 'ny'),
    'ng': ('ŋ', 'ng'), 'p': ('p', 'p'), 'ti': ('t̪', 't'), 't': ('t', 't'), 'tt': ('ʈ', 't'), 'k': ('k', 'k'),
    'q': ('q', 'k'), 'b': ('b', 'b'), 'di': ('d̪', 'd'), 'd': ('d', 'd'), 'dd': ('ɖ', 'd'), 'g': ('ɡ', 'g'),
    'f': ('f', 'f'), 's': ('s', 's'), 'sh': ('ʃ', 'sh'), 'ss': ('ʂ', 'sh'), 'kh': ('x', 'kh'), 'h': ('h', 'h'),
    'z': ('z', 'z'), 'zh': ('ʒ', 'zh'), 'gh': ('ɣ', 'g'), 't}{+}{sh': ('t͡ʃ', 'ch'), 'd}{+}{zh': ('d͡ʒ', 'j'),
    'vu': ('ʋ', 'v'), 'rru': ('ɻ', 'zh'), 'y': ('j', 'y'), 'l': ('l', 'l'), 'll': ('ɭ', 'l'), 'r': ('r', 'r'),
    'rt': ('ɾ', 'r'), 'rd': ('ɽ', 'rd')}


def _alt(names):
  return '(?:%s)' % '|'.join('{%s}' % n for n in names.split())


_NASAL = 'm ni n nn ny ng'
_VL = 'p ti t tt k q'
_VD = 'b di d dd g'
_FR = 'f s sh ss kh h z zh gh'
_TAP = 'r rt rd'
_CONS = '%s %s %s %s t}{+}{sh d}{+}{zh vu rru y l ll %s' % (_NASAL, _VL, _VD, _FR, _TAP)
_VOW = '_ V S a ae e ec eh i o oh u a}{+}{i a}{+}{u'
A = _alt
VOWEL = A(_VOW) + A('Z N :') + '*'
CONSONANT = A(_CONS) + '{H}*'
STOP = A(_VL + ' ' + _VD) + '{H}*'
AFFRICATE = A('t}{+}{sh d}{+}{zh') + '{H}*'
NASAL = A(_NASAL)
FRICATIVE = A(_FR)
VOICED = A(_VD + ' z zh gh d}{+}{zh')
APPROXIMANT = A('vu rru y l ll')
RHOTIC = A(_TAP + ' rru')
LIQUID = A(_TAP + ' rru l ll')
SIBILANT = A('s z sh zh ss')
ALL = A('sil Z N : H %s %s' % (_VOW, _CONS))
PLACES = [('m b p', 'm'), ('ni di ti', 'ni'), ('n d t', 'ny'), ('ny y', 'ny'), ('nn dd tt', 'nn'), ('ng g k', 'ng')]
CODA_GR = '(?:%s)' % '|'.join('<%s>' % n for n in [v[0] for v in CODAS.values()] + ['cnd'])
IND_GR = '(?:%s)' % '|'.join('<%s_i>' % n for n in _SIGNS)
VOCALIC_GR = '(?:%s)' % '|'.join('<%s>' % n for n in 'rv lv rrv llv rv_i lv_i rrv_i llv_i'.split())
SCHWA_GR = '(?:%s)' % '|'.join('<%s>' % v[0] for d in (CONSONANTS, ASPIRATED) for v in d.values())

# Pronunciation rules ---------------------------------------------------------

A_TO_EC = rew('{a}', '{ec}') + rew('{ec}{:}', '{a}{:}') + [
    Rule([('{ec}{+}{i}', '{a}{+}{i}'), ('{ec}{+}{u}', '{a}{+}{u}')])]
AI_EH = rew('{a}{+}{i}', '{eh}{:}')
AU_OH = rew('{a}{+}{u}', '{oh}{:}')
A_AE = reas('<a_i>', '{a}', '{ae}')


def vocalic(v):
  return rew('{S}', v) + rew('{S}{:}', v + '{:}')


def schwa(p):
  return [Rule([('{_}', p), ('{V}', p)])]


def process_schwa(affricates):
  onset = '|'.join([
      cat('{k}', '{sh}'), cat('{s}', A('t rt ni y vu')), cat(A('vu ni'), '{y}'), cat(A('k p g di sh'), '{rt}')])
  coda = '|'.join([
      cat(CONSONANT, '(?:%s|%s)' % (STOP, AFFRICATE) if affricates else STOP), cat(VOICED, NASAL),
      cat(A('f s sh ss kh z zh gh'), A('ni n nn ny ng')), cat(SIBILANT, '{m}'), cat(A(_TAP + ' rru l ll ' + _NASAL), NASAL),
      cat(RHOTIC, RHOTIC)])
  legal_coda = cat(VOWEL, '(?:%s|%s)?' % (CONSONANT, coda))
  legal_onset = cat('(?:%s|%s)' % (CONSONANT, onset), VOWEL)
  return (rew('{_}', '{V}', fol=CODA_GR) + rew('{_}', '{V}', fol=IND_GR)
          + rew('{_}', '{V}', pre=cat('{i}(?:{:})?', '{y}'))
          + rew('{_}', '{sil}', pre=legal_coda, fol=r'\Z') + rew('{_}', '{sil}', pre=legal_coda, fol=legal_onset))


def assimilation(gr):
  res = []
  for place, nasal in PLACES:
    res += reas(gr, '{N}', '{%s}' % nasal, fol=A(place))
  return res


def default_ans(p):
  return reas('<ans>', '{N}', p)


FINAL_NASALIZATION = [Rule([('<ans>={%s}' % n, '<ans>={N}') for n in _NASAL.split()], fol=EOW)]


def jny(j, ny):
  return [Rule([('<j>=%s<ny>={ny}' % DJ, '<j>=%s<ny>=%s' % (j, ny))])]


YY_Y = rew('{H}', '', pre='<yy>')
# The deletion is of the aspiration of <yy>, wherever it stands in the alignment.
OOYY_V = merge('<oo_i>', '{o}{:}', '<yy>', '{y}', '{vu}') + reas('<a>', '{oh}', '{sil}', fol='<oo_i><yy>')
PH_F = reas('<ph>', '{p}{H}', '{f}')
BH_V = reas('<bh>', '{b}{H}', '{vu}', pre=ALL)
B_V = reas('<b>', '{b}', '{vu}', pre=CONSONANT)
PHPH = [Rule([('<ph>={p}{H}<ph>={p}{H}', '<ph>={f}<ph>={f}')])]
NO_ASP_GEMINATE = rew('{H}', '', fol=ALL + '{H}')
RT_R = rew('{rt}', '{r}')
RR_TT = merge('<rr>', '{r}', '<rr>', '{r}', '{t}{t}')
NR_NDR = merge('<na>', '{n}', '<rr>', '{r}', '{n}{d}{r}')
WF_VIRAMA_U = [Rule([('', '<u>={u}')], '%s=%s*' % (SCHWA_GR, ALL), EOW)]
H_ASP = reas('<h>', '{h}', '{H}', pre=A('m ni vu l r'))
_GEMINABLE = sorted({v[1] for d in (CONSONANTS, DEAD) for v in d.values()} - {'{t}'})
ADDAK = [Rule([(p, p + p) for p in _GEMINABLE], pre='{sil}')] + reas('<ta>', '{t}', '{t}{t}', pre='{sil}')
AUM = reas('<u_i>', '{u}', '{o}', fol='<ans>' + SKIP + EOW)
OAM = merge('<oo>', '{o}{:}', '<aa_i>', '{a}{:}', '{ec}{o}', fol='<ans>' + SKIP + EOW)
ANSVA = merge('<ans>', '{N}', '<v>', '{vu}', '{o}{N}', fol='<a>' + SKIP + EOW)


def voicing(ops, pre, fol=None):
  return [Rule(ops, pre, fol)]


_V5 = [('{k}', '{g}'), ('{p}', '{b}'), ('{t}', '{d}'), ('{ti}', '{di}'), ('{tt}', '{dd}')]
_CTX_TA = '(?:%s|%s|%s|%s)' % (VOWEL, APPROXIMANT, NASAL, RHOTIC)
_CTX_ML = '(?:%s|%s|%s)' % (VOWEL, APPROXIMANT, NASAL)

TXN = {
    'bn': A_AE + vocalic('{i}') + process_schwa(True) + schwa('{oh}') + default_ans('{ng}') + jny('{g}', '{g}')
          + YY_Y + OOYY_V + BH_V + B_V + PH_F,
    'gu': A_TO_EC + vocalic('{u}') + assimilation('<ans>') + process_schwa(False) + schwa('{ec}') + default_ans('{ni}')
          + jny('{di}', '{ny}') + PH_F,
    'hi': AI_EH + AU_OH + A_TO_EC + vocalic('{i}') + assimilation('<ans>') + process_schwa(False) + schwa('{ec}')
          + default_ans('{ni}') + FINAL_NASALIZATION + jny('{g}', '{y}') + PHPH,
    'kn': RT_R + vocalic('{u}') + schwa('{a}') + assimilation('<ans>') + default_ans('{m}') + jny('{g}', '{ny}'),
    'ml': WF_VIRAMA_U + vocalic('{ec}') + schwa('{a}') + assimilation('<ans>') + default_ans('{m}') + RR_TT
          + voicing(_V5 + [(CH, DJ)], _CTX_ML, cat('(?:{H})?', _CTX_ML)) + voicing([('{tt}', '{dd}')], NASAL)
          + jny('{sil}', '{ny}'),
    'mr': AI_EH + AU_OH + A_TO_EC + vocalic('{u}') + H_ASP + assimilation('<ans>') + process_schwa(False)
          + schwa('{ec}') + default_ans('{ni}') + jny('{di}', '{ny}') + PH_F,
    'pa': ADDAK + AI_EH + AU_OH + A_TO_EC + vocalic('{i}') + assimilation('<ans>') + assimilation('<tip>') + AUM + OAM
          + ANSVA + process_schwa(False) + schwa('{ec}') + PH_F + NO_ASP_GEMINATE,
    'ta': vocalic('{ec}') + schwa('{a}') + assimilation('<ans>') + default_ans('{m}') + RR_TT + NR_NDR
          + voicing([(CH, DJ)], '{ny}', _CTX_TA) + voicing(_V5 + [(CH, '{s}')], _CTX_TA, _CTX_TA)
          + voicing([(CH, '{s}')], r'\A', _CTX_TA) + jny('{sil}', '{ny}'),
}
TXN['te'] = TXN['kn'][1:]

# Romanization ----------------------------------------------------------------

SIBW = rew('{vu}', '`w`', pre=SIBILANT)
PSA_COMMON = (
    reas('<ai>', '{eh}{:}', '`ai`') + reas('<au>', '{oh}{:}', '`au`') + reas('<ai_i>', '{eh}{:}', '`ai`')
    + reas('<au_i>', '{oh}{:}', '`au`') + [Rule([('<ans>={ng}', '<ans>=`n`'), ('<ans>={ny}', '<ans>=`n`')])]
    + reas('<rdh>', '{rd}{H}', '`d``h`'))
_one_letter = lambda t: len(t) == 1
LONG = [r for n, (_, t) in PHONEMES.items()
        for r in rew('{%s}{:}' % n, '`%s`' % (t * 2 if _one_letter(t) else t))]
NO_LONG = rew('{:}', '')
BY_PSA = [Rule([('{%s}' % n, '`%s`' % t) for n, (_, t) in PHONEMES.items()])]
CC = merge('<c>', '`ch`', '<c>', '`ch`', '`c``ch`')
CCH = merge('<c>', '`ch`', '<ch>', '`ch``h`', '`ch``h`')
SHSH = merge('<ss>', '`sh`', '<ss>', '`sh`', '`s``sh`') + merge('<sh>', '`sh`', '<sh>', '`sh`', '`s``sh`')
OO_AO = reas('<oo>', '{o}{:}', '`a``o`', fol='<ans>')
GAAV = merge('<aa>', '{a}{:}', '<v>', '{vu}', '`a``o``n`', pre='<g>')
RDH_RH = reas('<rdh>', '{rd}{H}', '`r``h`')
AA_WI = reas('<aa_i>', '{a}{:}', '`aa`', pre=BOW)
EN_LONG = rew('{i}{:}', '`e``e`') + rew('{u}{:}', '`o``o`')
EE_AE = reas('<ee>', '{e}{:}', '`a``e`')
OO_OA = reas('<oo>', '{o}{:}', '`o``a`', pre=APPROXIMANT) + reas('<oo>', '{o}{:}', '`o``a`', fol=APPROXIMANT)
TI_TH = (merge('<t>', '{ti}', '<t>', '{ti}', '`t``h`') + reas('<t>', '{ti}', '`t``h`') + reas('<t>', '{di}', '`t``h`'))
TT_TR = [Rule([('<rr><rr>={t}{t}', '<rr><rr>=`t``t``r`')])]
NY_N = rew('{ny}', '`n`', fol=CONSONANT)
NY_GN = reas('<ny>', '{ny}', '`g``n`', VOWEL, VOWEL)
AE_A = rew('{ae}', '`a`')
OH_A = reas('<a>', '{oh}', '`a`')
RD_R = reas('<rd>', '{rd}', '`r`')
NYJ = rew('{ny}', '`n`', fol=DJ)
AA_CND = reas('<aa>', '{a}{:}', '`a``o`', fol='<cnd>(?:%s<oo>)?%s%s' % (SKIP, SKIP, EOW))
CND_OO = reas('<oo>', '{o}{:}', '``', pre='<cnd>', fol=EOW)
OOYY_W = [Rule([('<oo_i><yy>={vu}', '<oo_i><yy>=`w`')])]
IYY = reas('<yy>', '{y}', '``', pre=A('i u') + '(?:{:})?')


def vocalic_tr(v, long):
  return rew('{S}{:}', long, pre=VOCALIC_GR) + rew('(?:%s|{S})' % VOWEL, v, pre=VOCALIC_GR)


def _acronym():
  sign = {'A': 'a aa', 'E': 'e ee', 'I': 'i ii', 'U': 'u uu'}
  ind = {'a': 'a_i aa_i', 'e': 'e_i ee_i', 'i': 'i_i ii_i', 'o': 'o_i oo_i'}

  def spelling(text):
    parts = []
    for p in text.split():
      names = sign.get(p) or ind.get(p) or {'F': 'f ph', 'Z': 'j z'}.get(p) or p
      names = {'schwa': 'a'}.get(names, names)
      parts.append('(?:%s)=%s*' % ('|'.join('<%s>' % n for n in names.split()), R))
    return ''.join(parts)
  table = ['A:e', 'B:b I', 'C:s I', 'D:dd I', 'E:i', 'F:e F schwa', 'G:j I', 'H:e c schwa', 'I:a i', 'J:j E', 'K:k E',
           'L:e l schwa', 'M:e m schwa', 'N:e n schwa', 'O:o', 'P:p I', 'Q:k y U', 'R:a r schwa', 'S:e s schwa',
           'T:tt I', 'U:y U', 'V:v I', 'W:dd schwa b l U', 'W:dd schwa b l y U', 'W:dd schwa b schwa l y U',
           'W:dd schwa b l schwa y U', 'X:e k s schwa', 'Y:v A i', 'Z:Z E dd schwa']
  pairs = [(spelling(t.split(':')[1]), '`%s`' % t[0]) for t in table]
  upper = '(?:%s)*' % '|'.join('`%s`' % chr(c) for c in range(65, 91))
  return [Rule(pairs, r'\A' + upper, '(?:%s)*\\Z' % '|'.join(p for p, _ in pairs))]


HI_ACRONYM = _acronym()
_BASE = PSA_COMMON + LONG + BY_PSA
_COARSE = PSA_COMMON + NO_LONG + BY_PSA
_FINISH = CC + CCH + SHSH
_BN = AE_A + OH_A + RD_R
RULES = {}
for _l in TXN:
  RULES[_l, 'ipa'] = TXN[_l]
  RULES[_l, 'psaf'] = TXN[_l] + _BASE
  RULES[_l, 'psac'] = TXN[_l] + _COARSE
for _l in ('ta', 'ml'):
  RULES[_l, 'psaf'] = TXN[_l] + vocalic_tr('`i`', '`ii`') + _BASE
RULES['bn', 'psaf'] = TXN['bn'] + _BN + LONG + BY_PSA
RULES['bn', 'psac'] = TXN['bn'] + _BN + NO_LONG + BY_PSA
RULES['bn', 'nat'] = TXN['bn'] + _BN + SIBW + NYJ + AA_CND + CND_OO + OOYY_W + IYY + NO_LONG + BY_PSA + _FINISH
RULES['gu', 'nat'] = TXN['gu'] + SIBW + OO_AO + GAAV + _COARSE + _FINISH
RULES['mr', 'nat'] = TXN['mr'] + SIBW + OO_AO + GAAV + _COARSE + _FINISH
RULES['hi', 'nat'] = HI_ACRONYM + TXN['hi'] + SIBW + AA_WI + RDH_RH + _COARSE + _FINISH
for _l in ('kn', 'te'):
  RULES[_l, 'nat'] = TXN[_l] + PSA_COMMON + BY_PSA
RULES['ml', 'nat'] = TXN['ml'] + EN_LONG + TI_TH + _FINISH + SIBW + NY_N + NY_GN + PSA_COMMON + BY_PSA
RULES['pa', 'nat'] = TXN['pa'] + RD_R + SIBW + _COARSE + _FINISH
RULES['ta', 'nat'] = (TXN['ta'] + EN_LONG + EE_AE + OO_OA + TI_TH + TT_TR + _FINISH + SIBW + NY_N + NY_GN + PSA_COMMON
                      + BY_PSA)

SUBSTRINGS = 'ae ai au ch dh kh ng ny rd sh th zh'.split()


def no_repetition(text):
  for units in (SUBSTRINGS, [chr(c) for c in range(97, 123)]):
    text = re.sub('|'.join('(%s)%s' % (u, u) for u in units), lambda m: m.group()[:len(m.group()) // 2], text)
  return text


def _print_ipa(word):
  """None if something isn't a phoneme."""
  out, i = '', 0
  table = {s('{%s}' % n): ipa for n, (ipa, _) in PHONEMES.items()}
  while i < len(word):
    for n in (3, 1):
      if word[i:i + n] in table:
        out += table[word[i:i + n]]
        i += n
        break
    else:
      return None
  return out


def _print_latin(word):
  out = ''
  for c in word:
    name = show(c)
    if name[0] != '`':
      return None
    out += name[1:-1]
  return out


def results(lang, scheme, word):
  """Every result the rules allow for an ISO word; one if they don't conflict."""
  cur = to_txn(word)
  for rule in RULES[lang, scheme]:
    cur = rule(cur)
  res = set()
  for w in cur:
    right = re.sub('%s|=' % G, '', w)
    text = _print_ipa(right) if scheme == 'ipa' else _print_latin(right)
    if text is not None:
      res.add(no_repetition(text) if scheme == 'psac' else text)
  return res


# Generated words -------------------------------------------------------------

LANGS = sorted(TXN)
E2E = ['hi', 'kn', 'ml', 'ta', 'te']
CONS = sorted(CONSONANTS) + sorted(ASPIRATED) + sorted(DEAD)
CODA = sorted(set(CODAS) - {'\u0310'}) + ['m\u0310']
SIGNS = sorted(VOWELS)
# What the language rules are about.
CHUNKS = ('jñ ccʰ cc śś ṣṣ śv sv zv ṣv ñj ñc ñn aña iñī gāv kāvi ōṁ āṁ pʰpʰ pʰa bʰa kb ba ṟṟ ṉṟ tt ta ti nta atta kṣ str '
          'sty svar nya vya kra gra hra mh nh lh rh vh rʰ iya īya iyya iẏa iẏi ẏa uẏa oẏa aõẏ ōẏa āōẏ ām̐ ām̐ō ōm̐ uṁ aṁva '
          'ōāṁ ō.āṁ .uṁ .aṁva .ōẏ .ōẏa kō.ā m̐.ō .ai .au .aika aṁvā '
          '˖cā ˖cʰa ˖pʰa ˖ka ˖ja ˖tʰi ṃka ṃba ṃga ṃ ṁka ṁga ṁca ṁṭa ṁta ṁpa ṁya ṁsa ṁha ṁ bārah karnā vala '
          'sarakār laṛakā dʰarm mitr candr indr svarg viṣṇu agni ratn padm ṛʰa ṛa paṛʰ kai kau ai au aika r̥ṣi kr̥pā l̥̄ '
          'bī ēca ēla āī ḍabalyū ēksa jēḍa ōnna kk mp nk ñk ṅk ṇṭ aka aga apa aṭa aca caca iḻa aḻi eḷu yō ōya lōla vōv ē ō '
          'ḥ ḥka sa ḥ kⸯ lⸯ nⸯ rⸯ r\u0306 kⸯk').split()


def words(st):
  unit = st.one_of(
      st.tuples(st.sampled_from(CONS), st.sampled_from(SIGNS + ['a'] * 12)).map(''.join),
      st.tuples(st.lists(st.sampled_from(CONS), min_size=1, max_size=3).map(''.join),
                st.sampled_from(['a', 'a', 'a', 'i', 'ā', ''])).map(''.join),
      st.sampled_from(CHUNKS), st.sampled_from(CHUNKS), st.sampled_from(CHUNKS),
      st.sampled_from(SIGNS), st.sampled_from(CODA), st.sampled_from(['.', '-', '+', '|', 'õm']))
  loose = st.text(''.join(SINGLE), min_size=1, max_size=6)
  acronym = st.lists(st.sampled_from(
      'ē e bī bi sī ḍī dī ī i ēpʰa epʰa ēfa jī ēca āī āi jē je kē ēla ēma ēna ō o pī kyū āra ēsa ṭī yū vī ḍablū ḍablyū '
      'ḍabalyū ḍablayū ēksa vāī vaī zēḍa jēḍa'.split()), min_size=1, max_size=4).map(''.join)
  return st.one_of(*[st.lists(unit, min_size=1, max_size=5).map(''.join)] * 8, acronym, loose)


def pairs():
  """Every two units next to each other, in changing surroundings."""
  units = CONS + SIGNS + CODA + ['.' + v for v in SIGNS]
  n = 0
  for a in units:
    for b in units:
      n += 1
      yield ['', 'ka', 'ā', 'kni', 'mapa'][n % 5] + a + b + ['a', 'ika', '', 'ara', 'yā', 'ṁ', 'nna'][n % 7]


def chunks():
  """What the rules are about, alone and in surroundings."""
  for c in sorted(set(CHUNKS)):
    for before, after in (('', ''), ('k', 'a'), ('ka', 'ra'), ('', 'ika'), ('mā', ''), ('ni', 'ṁ')):
      yield before + c + after


FAR = 'nisaba/scripts/natural_translit/%s%s.far'


def where(lang, scheme):
  d = 'g2p' if scheme == 'ipa' else 'romanization'
  return '%s/%s_iso_%s' % (d, lang, scheme), 'ISO_TO_' + scheme.upper()


def targets(schemes):
  res = []
  for l in LANGS:
    for k in schemes:
      d, name = where(l, k)[0].split('/')
      res.append('//nisaba/scripts/natural_translit/%s:%s' % (d, name))
  return res + ['//nisaba/scripts/natural_translit/languages:%s_e2e' % l for l in E2E]


def outputs(fst, word, utf8=False):
  """All results."""
  import pynini
  from lib import fst as f
  lat = pynini.compose(f.accep(word, utf8), fst)
  if lat.start() == pynini.NO_STATE_ID:
    return []
  lat = pynini.determinize(lat.project('output').rmepsilon())
  return sorted(set(lat.paths(output_token_type='utf8' if utf8 else 'byte').ostrings()))


def run(ctx, schemes, extra=None):
  """The checks of one language."""
  from lib import fst as f
  from lib.pbt import eq, fail, st
  lang = ctx.sub
  rules = {}
  for k in schemes:
    path, rule = where(lang, k)
    rules[k] = (f.far(FAR % (path, ''))[rule], f.far(FAR % (path, '_utf8'))[rule])
    if lang in E2E and (lang not in ('kn', 'te') or k != 'nat'):
      e2e = 'languages/%s_e2e' % lang
      rules[k] += (f.far(FAR % (e2e, ''))[rule], f.far(FAR % (e2e, '_utf8'))[rule])

  def one(case, cheap=False):
    word, k = case
    want = sorted(results(lang, k, word))
    got = outputs(rules[k][0], word)
    if len(got) != 1:
      fail('not exactly one result', word=word, scheme=k, got=got)
    eq(got, want, 'result', word=word, scheme=k)
    if not cheap:
      for fst, u in zip(rules[k][1:], (True, False, True)):
        eq(outputs(fst, word, u), got, 'the other grammars of the scheme', word=word, scheme=k)
    if extra:
      extra(word, k, got[0])
    return _default(word, k) != got[0]
  cases = [[w, k] for w in chunks() for k in schemes]
  ctx.enum('chunks', cases, lambda case: one(case, True))
  ctx.check('words', st.tuples(words(st), st.sampled_from(schemes)).map(list), one, ctx.n(220 * len(schemes), 6000))
  return rules, one


def _default(word, scheme):
  """Every letter on its own."""
  res = ''
  for c in word:
    right = s(SOUND[SINGLE[c][0]])
    res += (_print_ipa(right) if scheme == 'ipa' else '') or ''
    if scheme != 'ipa':
      res += ''.join(PHONEMES[show(x)[1:-1]][1] for x in right if show(x) != '{+}')
  return res
