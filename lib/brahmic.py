"""Reference models of the Brahmic operations, from the published tables.

Plain Python over strings: no finite-state machinery and no code of the
repository. Tables come from spec/tables.json (see tools/refresh_spec.py).
"""
import functools
import json
import os
import re
import unicodedata

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLES = json.load(open(os.path.join(HERE, 'spec/tables.json'), encoding='utf8'))

SCRIPTS = ['Beng', 'Bugi', 'Deva', 'Gujr', 'Guru', 'Knda', 'Lepc', 'Limb', 'Mlym',
           'Mtei', 'Newa', 'Orya', 'Sinh', 'Sylo', 'Takr', 'Taml', 'Telu', 'Tglg',
           'Thaa', 'Tirh']
ZWNJ, ZWJ, ZWS = '\u200c', '\u200d', '\u200b'
JOINERS = (ZWNJ, ZWJ, ZWS)
LETTERS = ['accept', 'coda', 'consonant', 'dead_consonant', 'standalone',
           'subjoined_consonant', 'virama', 'vowel', 'vowel_length_sign',
           'vowel_sign']


@functools.lru_cache(maxsize=None)
def rows(name):
  return tuple((r[0], r[1] if len(r) > 1 else '') for r in TABLES.get(name, []))


def table(script, name, lang=None):
  return rows('brahmic/data/%s/%s%s.tsv' % (script, lang + '/' if lang else '', name))


def lhs(script, name):
  return [a for a, _ in table(script, name)]


@functools.lru_cache(maxsize=None)
def script_chars(script):
  cs = set()
  for t in LETTERS:
    for a, _ in table(script, t):
      cs.update(a)
  for t in ('nfc', 'reading_norm', 'visual_rewrite'):
    for a, b in table(script, t):
      cs.update(a + b)
  return tuple(sorted(cs))


# --- rewriting ---------------------------------------------------------------


def layers(rules):
  """Bleeding order: a rule acts before every rule whose LHS is inside its own."""
  rules = list(dict.fromkeys(rules))
  depth = {}

  def d(r):
    if r not in depth:
      sup = [s for s in rules if s != r and r[0] in s[0]]
      depth[r] = 1 + max([d(s) for s in sup], default=-1)
    return depth[r]

  for r in sorted(rules, key=lambda r: -len(r[0])):
    d(r)
  out = {}
  for r in rules:
    out.setdefault(depth[r], []).append(r)
  return [out[k] for k in sorted(out)]


def scan(text, rules):
  """Obligatory left-to-right simultaneous replacement; outputs not rescanned."""
  m = {a: b for a, b in rules}
  lens = sorted({len(a) for a in m}, reverse=True)
  out, i = [], 0
  while i < len(text):
    for n in lens:
      s = text[i:i + n]
      if len(s) == n and s in m:
        out.append(m[s])
        i += n
        break
    else:
      out.append(text[i])
      i += 1
  return ''.join(out)


@functools.lru_cache(maxsize=None)
def _layers(rules):
  return layers(rules)


def unordered(text, rules):
  for layer in _layers(tuple(rules)):
    text = scan(text, layer)
  return text


def nfc(script, text):
  return unordered(text, table(script, 'nfc'))


@functools.lru_cache(maxsize=None)
def all_nfc_rules():
  return tuple(r for s in SCRIPTS for r in table(s, 'nfc'))


def nfc_all(text):
  return unordered(text, all_nfc_rules())


@functools.lru_cache(maxsize=None)
def marks(script):
  return frozenset(JOINERS) | {c for c in script_chars(script)
                               if unicodedata.category(c) == 'Mn'}


def dedup(script, text):
  m, out = marks(script), []
  for c in text:
    if out and out[-1] == c and c in m:
      continue
    out.append(c)
  return ''.join(out)


@functools.lru_cache(maxsize=None)
def _alt(strings):
  return '(?:' + '|'.join(re.escape(s) for s in sorted(set(strings), key=lambda s: (-len(s), s))) + ')' if strings else '(?!)'


@functools.lru_cache(maxsize=None)
def _joiner_pat(script):
  cons = lhs(script, 'consonant')
  keep = [a for a, _ in table(script, 'preserve')]
  # A consonant spelling with two characters ends in a character which may or
  # may not be a consonant itself: a lookbehind per spelling covers both.
  behind = '(?:' + '|'.join('(?<=%s)' % re.escape(c) for c in sorted(set(cons))) + ')'
  pres = '%s(%s)(?=%s)' % (behind, _alt(tuple(keep)), _alt(tuple(cons)))
  return re.compile(pres if keep else '(?!)')


def clean_joiners(script, text):
  """Removes ZWJ, ZWNJ and ZWS but for the preserved sequences between consonants."""
  pat, out, i = _joiner_pat(script), [], 0
  while i < len(text):
    m = pat.match(text, i)
    if m:
      out.append(m.group(1))
      i = m.end(1)
    else:
      if text[i] not in JOINERS:
        out.append(text[i])
      i += 1
  return ''.join(out)


def visual(script, text, lang=None):
  text = nfc(script, text)
  text = dedup(script, text)
  text = unordered(text, table(script, 'visual_rewrite'))
  text = clean_joiners(script, text)
  if lang:
    cons = _alt(tuple(lhs(script, 'consonant')))
    for a, b in table(script, 'before_consonant', lang):
      text = re.sub(re.escape(a) + '(?=%s)' % cons, lambda m: b, text)
    behind = '(?:' + '|'.join('(?<=%s)' % re.escape(c) for c in sorted(set(lhs(script, 'consonant')))) + ')'
    for a, b in table(script, 'after_consonant', lang):
      text = re.sub(behind + re.escape(a), lambda m: b, text)
  return text


def reading(script, text, lang=None):
  text = unordered(text, table(script, 'reading_norm'))
  if lang:
    text = unordered(text, table(script, 'reading_norm', lang))
  return text


# --- well-formedness ---------------------------------------------------------


@functools.lru_cache(maxsize=None)
def wellformed_pattern(script):
  a = lambda n: _alt(tuple(lhs(script, n)))  # noqa: E731
  def opt(n):
    return a(n) + '?' if lhs(script, n) else ''
  cons = a('consonant') + opt('subjoined_consonant')
  link = '(?:%s|%s)' % (a('virama'), a('preserve'))
  cluster = '(?:%s%s)*%s' % (cons, link, cons)
  dead = cluster + a('virama') + opt('dead_consonant')
  vs = a('vowel_sign') + ('' if script == 'Thaa' else '?')
  head = '(?:%s|%s%s)' % (a('vowel'), cluster, vs)
  aks = head + opt('vowel_length_sign') + opt('coda') + opt('dead_consonant')
  return re.compile('(?:%s|%s|%s|%s)*' % (aks, dead, a('standalone'), a('accept')))


def wellformed(script, text):
  return _nfa_match(script, text)


# A regular expression with nested stars may backtrack exponentially: the same
# grammar as a set-of-positions machine.
def _ends(text, starts, strings):
  return {i + len(s) for i in starts for s in strings if text.startswith(s, i)}


def _nfa_match(script, text):
  L = lambda n: tuple(lhs(script, n))  # noqa: E731
  C, SUB, V, VS = L('consonant'), L('subjoined_consonant'), L('vowel'), L('vowel_sign')
  VIR, PRES, DEAD = L('virama'), L('preserve'), L('dead_consonant')
  VL, CODA, STAND, ACC = L('vowel_length_sign'), L('coda'), L('standalone'), L('accept')
  opt = lambda st, n: st | _ends(text, st, n)  # noqa: E731
  memo = {}

  def akshara(i):
    if i in memo:
      return memo[i]
    res = set()
    # consonant clusters
    todo, cl = {i}, set()
    seen = set()
    while todo:
      c = opt(_ends(text, todo, C), SUB)
      cl |= c
      seen |= todo
      todo = (_ends(text, c, VIR) | _ends(text, c, PRES)) - seen
    res |= opt(_ends(text, cl, VIR), DEAD)
    head = _ends(text, cl, VS)
    if script != 'Thaa':
      head |= cl
    head |= _ends(text, {i}, V)
    res |= opt(opt(opt(head, VL), CODA), DEAD)
    res |= _ends(text, {i}, STAND) | _ends(text, {i}, ACC)
    memo[i] = res
    return res

  reach, todo = {0}, [0]
  while todo:
    for j in akshara(todo.pop()):
      if j not in reach:
        reach.add(j)
        todo.append(j)
  return len(text) in reach


# --- ISO 15919 -----------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def _iso_tables(script):
  t = {n: table(script, n) for n in LETTERS}
  t['inherent'] = [a for a, _ in rows('brahmic/data/%s/inherent_vowel.tsv' % script)]
  t['symbol'] = rows('brahmic/data/symbol.tsv')
  return t


def _steps(pairs, text, i):
  return [(i + len(a), b) for a, b in pairs if text.startswith(a, i)]


def iso_segments(script, text, i):
  """(end, latin, cost) of every orthographic unit of text that starts at i.

  The unit kinds are those of the documentation: consonant with vowel sign,
  with inherent vowel, or dead; independent vowel (chained with '.'); coda;
  dead consonant; length sign; standalone; dangling vowel sign ('-'); stray
  virama; joiners.
  """
  t = _iso_tables(script)
  V, VIR = t['vowel'], t['virama']
  out = []

  def dotted(j, latin, cost, least):
    """latin + ('.' vowel){least,}, each chain a unit of its own."""
    if least == 0:
      out.append((j, latin, cost))
    todo = [(j, latin)]
    while todo:
      k, l = todo.pop()
      for e, v in _steps(V, text, k):
        out.append((e, l + '.' + v, cost))
        todo.append((e, l + '.' + v))

  cons = _steps(t['consonant'], text, i)
  cons += [(e2, l + s) for e, l in cons for e2, s in _steps(t['subjoined_consonant'], text, e)]
  for e, l in cons:
    for e2, v in _steps(t['vowel_sign'], text, e):
      out.append((e2, l + v, 0))
      dotted(e2, l + v, 0, 1)
    for v in t['inherent']:
      out.append((e, l + v, 1))
      dotted(e, l + v, 0, 1)
    for e2, _ in _steps(VIR, text, e):
      out.append((e2, l, 1))
      dotted(e2, l, 0, 1)
  for e, v in _steps(V, text, i):
    out.append((e, v, 1))
    dotted(e, v, 1, 1)
  for e, v in _steps(t['coda'], text, i):
    out.append((e, v, 1))
  for e, v in _steps(t['dead_consonant'], text, i):
    out.append((e, v, 0))
  for e, v in _steps(t['vowel_length_sign'], text, i):
    out.append((e, v, 0))
  for e, v in _steps(t['standalone'], text, i):
    out.append((e, v, 1))
  for e, v in _steps(t['vowel_sign'], text, i):
    dotted(e, '-' + v, 1, 0)
  for e, _ in _steps(VIR, text, i):
    out.append((e, '˘', 2))
  for e, v in _steps(t['symbol'], text, i):
    out.append((e, v, 0))
  return out


def from_iso_best(scripts, text, passthrough, limit=64):
  """The set of cheapest romanizations; empty if there is none."""
  best = [None] * (len(text) + 1)   # cost, {latin}
  best[0] = (0, {''})
  for i in range(len(text)):
    if best[i] is None:
      continue
    cost, latins = best[i]
    segs = [s for sc in scripts for s in iso_segments(sc, text, i)]
    if passthrough and not segs:
      segs = [(i + 1, text[i], 0)]
    for e, l, c in segs:
      new = (cost + c, {x + l for x in latins})
      if best[e] is None or new[0] < best[e][0]:
        best[e] = new
      elif new[0] == best[e][0]:
        if len(best[e][1]) < limit:
          best[e] = (new[0], best[e][1] | new[1])
  return best[-1][1] if best[-1] else set()


def script_to_iso(script, text):
  return from_iso_best((script,), nfc(script, text), False)


def to_iso(text):
  return from_iso_best(tuple(SCRIPTS), nfc_all(text), True)
