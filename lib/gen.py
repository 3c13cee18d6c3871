"""Generators of words, lines and surroundings for the script grammars."""
import itertools

from hypothesis import strategies as st

from lib import brahmic as M

FOREIGN = list('aAzZ09 .,-|+˘[]\\/#"\'\t\n%&;:=<>{}()~^$_`') + list(
    'éāṅñḥʻßΩЖдاب中日한ก๑ကခཀ𝔄😀😁\u0301\u0323\ufeff\u00a0\ue000\U0010ffff') + [
        '[EOS]', '[BOS]', '[ZWJ,VIRAMA]', '[1]', '[0x41]', '\\[']


def tokens(script):
  """The units that rules speak of, and single characters."""
  t = []
  for n in M.LETTERS:
    t += M.lhs(script, n)
  for n in ('nfc', 'visual_rewrite', 'reading_norm'):
    for a, b in M.table(script, n):
      t += [a, b]
  for lang in ('as', 'bn', 'hi'):
    for n in ('before_consonant', 'after_consonant', 'reading_norm'):
      for a, b in M.table(script, n, lang):
        t += [a, b]
  t += list(M.script_chars(script)) + list(M.JOINERS)
  return sorted({x for x in t if x}, key=lambda x: (len(x), x))


def rule_parts(script, names=('nfc', 'visual_rewrite')):
  """Left-hand sides, and their pieces, of the rules."""
  t = set()
  for n in names:
    for a, b in M.table(script, n):
      t.update([a, b])
      t.update(a[:k] for k in range(1, len(a)))
      t.update(a[k:] for k in range(1, len(a)))
  return sorted((x for x in t if x), key=lambda x: (len(x), x))


def word(script, max_tokens=8, extra=()):
  """Random unit sequences: mostly legal units in any order."""
  cls = [M.lhs(script, n) for n in M.LETTERS if M.lhs(script, n)]
  cons = M.lhs(script, 'consonant')
  link = sorted(set(M.lhs(script, 'virama') + M.lhs(script, 'preserve') + list(M.JOINERS)))
  arms = [st.sampled_from(tokens(script)), st.sampled_from(cons)]
  arms += [st.sampled_from(link)] + [st.sampled_from(c) for c in cls]
  rp = rule_parts(script)
  if rp:
    arms += [st.sampled_from(rp)] * 3
  if extra:
    arms += [st.sampled_from(list(extra))] * 2
  return st.lists(st.one_of(arms), max_size=max_tokens).map(''.join)


def syllable(script):
  L = lambda n: M.lhs(script, n)  # noqa: E731
  def some(n, p_none=2):
    xs = L(n)
    return st.sampled_from([''] * (p_none * max(1, len(xs) // 2)) + xs) if xs else st.just('')
  C = st.tuples(st.sampled_from(L('consonant')), some('subjoined_consonant')).map(''.join)
  links = L('virama') * 3 + L('preserve')
  if links:
    cluster = st.tuples(
        st.lists(st.tuples(C, st.sampled_from(links)).map(''.join), max_size=3).map(''.join),
        C).map(''.join)
  else:
    cluster = C
  sign = st.sampled_from(L('vowel_sign')) if script == 'Thaa' else some('vowel_sign', 1)
  arms = [st.tuples(st.one_of(*([st.sampled_from(L('vowel'))] if L('vowel') else []),
                              st.tuples(cluster, sign).map(''.join)),
                    some('vowel_length_sign'), some('coda'), some('dead_consonant', 4)).map(''.join)]
  arms = arms * 4
  if L('virama'):
    arms.append(st.tuples(cluster, st.sampled_from(L('virama')), some('dead_consonant')).map(''.join))
  for n in ('standalone', 'accept'):
    if L(n):
      arms.append(st.sampled_from(L(n)))
  return st.one_of(arms)


def wellformed(script, max_size=5):
  return st.lists(syllable(script), max_size=max_size).map(''.join)


def near_miss(script):
  """A well-formed word with one edit."""
  toks = tokens(script)
  def edit(t):
    w, i, kind, x, j = t
    i = i % (len(w) + 1)
    j = j % (len(w) + 1)
    if kind == 0:
      return w[:i] + x + w[i:]
    if kind == 1:
      return w[:i] + w[i + 1:]
    if kind == 2:
      return w[:i] + x + w[i + 1:]
    if kind == 3 and i < len(w):
      return w[:i] + w[i] + w[i:]
    lo, hi = min(i, j), max(i, j)
    return w[:lo] + w[lo:hi][::-1] + w[hi:]
  return st.tuples(wellformed(script), st.integers(0, 40), st.integers(0, 4),
                   st.sampled_from(toks), st.integers(0, 40)).map(edit)


def any_word(script, extra=()):
  return st.one_of(word(script, extra=extra), wellformed(script), near_miss(script))


def foreign(max_size=4):
  return st.lists(st.one_of(
      st.sampled_from(FOREIGN),
      st.characters(codec='utf-8', exclude_characters='\x00')),
      min_size=1, max_size=max_size).map(''.join)


def pairs(script):
  t = tokens(script)
  yield from t
  for a, b in itertools.product(t, t):
    yield a + b


def is_ascii_special(s):
  return any(c in '[]\\' for c in s)
