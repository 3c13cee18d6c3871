"""N05: rewrite helpers change only what their contexts select."""
import re

from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/natural_translit/utils:rewrite_functions']
RULE = ('Random rewrite rules (every helper, with contexts that are symbols, unions, sequences, '
        'optional parts, word ends) applied to random aligned words; the reference encodes each '
        'symbol as one character and rewrites from left to right with ordinary regular expressions. '
        'Non-trivial: the rule changes the word.')

REAL = {'A': '<a>', 'B': '<a_l>', 'C': '<k>', '=': '=', 'a': '{a}', 'b': '{t}', 'c': '{+}',
        'd': '{:}', 'e': '{d_zh}', 't': '`a`', 'u': '`sh`', 'v': '`k`'}
G, R = 'ABC', 'abcdetuv'
SKIP_L = '(?:[ABC]*=)?'
SKIP_R = '(?:=[abcdetuv]*)?'
SKIP = '(?:%s|%s)' % (SKIP_L, SKIP_R)


def subs(tier):
  return ['rewrite1', 'rewrite2', 'reassign', 'merge', 'lists', 'parts']


def real(s):
  return ''.join(REAL[c] for c in s)


class Lib:

  def __init__(self):
    import pynini
    from nisaba.scripts.natural_translit.utils import alignment as al
    from nisaba.scripts.natural_translit.utils import concat as cc
    from nisaba.scripts.natural_translit.utils import fst_list as fl
    from nisaba.scripts.natural_translit.utils import rewrite_functions as rw
    self.pyn, self.al, self.cc, self.fl, self.rw = pynini, al, cc, fl, rw

  def ctx(self, c):
    """(acceptor or None, regular expression)."""
    kind, args = c[0], c[1:]
    if kind == 'none':
      return None, None
    if kind == 'sym':
      return real(args[0]), args[0]
    if kind == 'fst':
      return self.pyn.accep(real(args[0])), args[0]
    if kind == 'any':
      return self.fl.FstList.accep(*map(real, args[0])).union_opt(), '(?:%s)' % '|'.join(args[0])
    if kind == 'opt':
      return (self.pyn.accep(real(args[0])) + self.pyn.accep(real(args[1])).ques,
              '%s(?:%s)?' % (args[0], args[1]))
    if kind == 'concat_r':
      return self.cc.concat_r(real(args[0]), real(args[1])), args[0] + SKIP_L + args[1]
    if kind == 'concat_l':
      return self.cc.concat_l(real(args[0]), real(args[1])), args[0] + SKIP_R + args[1]
    if kind == 'bow':
      return self.al.BOW, '^' + SKIP_L
    if kind == 'eow':
      return self.al.EOW, SKIP_R + '$'
    raise ValueError(kind)

  def outputs(self, fst, word):
    lat = self.pyn.compose(self.pyn.accep(real(word)), fst)
    lat = self.pyn.determinize(lat.project('output').rmepsilon()) if lat.start() >= 0 else lat
    return sorted(set(lat.paths().ostrings())) if lat.start() >= 0 else []


def reference(word, pairs, pre, fol):
  """None: two rules apply at one place."""
  pre_re = re.compile('(?:%s)\\Z' % (pre + SKIP)) if pre is not None else None
  fol_re = re.compile('(?:%s)' % (SKIP + fol)) if fol is not None else None
  out, i = '', 0
  while i <= len(word):
    hits = [(o, n) for o, n in pairs if word.startswith(o, i)
            and (pre_re is None or pre_re.search(out)) and (fol_re is None or fol_re.match(word[i + len(o):]))]
    if len(set(hits)) > 1:
      return None
    if hits:
      out += hits[0][1]
      i += len(hits[0][0])
      if hits[0][0]:
        continue
    if i < len(word):
      out += word[i]
    i += 1
  return out


def word_strategy():
  unit = st.tuples(st.text(G, min_size=1, max_size=2), st.text(R, max_size=3)).map(lambda t: t[0] + '=' + t[1])
  few = st.tuples(st.sampled_from(['A', 'B', 'C', 'AB']), st.text('abd', max_size=2)).map(lambda t: t[0] + '=' + t[1])
  aligned = st.lists(st.one_of(unit, few, few), min_size=1, max_size=5).map(''.join)
  return st.one_of(aligned, aligned, aligned, st.text(R, max_size=6), st.text(G, max_size=4))


def contexts(end):
  sym = st.sampled_from('ABCabcdetuv' + 'abdab')
  few = st.sampled_from('ABabd')
  seq = st.one_of(few, sym, st.tuples(few, few).map(''.join))
  return st.one_of(
      st.just(['none']), st.just(['none']), seq.map(lambda s: ['sym', s]), seq.map(lambda s: ['fst', s]),
      st.lists(few, min_size=2, max_size=3, unique=True).map(lambda l: ['any', sorted(l)]),
      st.tuples(few, few).map(lambda t: ['opt', t[0], t[1]]),
      st.tuples(st.sampled_from('abd'), st.sampled_from('abd')).map(lambda t: ['concat_r', t[0], t[1]]),
      st.tuples(st.sampled_from('AB'), st.sampled_from('AB')).map(lambda t: ['concat_l', t[0], t[1]]),
      st.just([end]))


def piece(lo=1):
  return st.one_of(st.text('abd', min_size=lo, max_size=2), st.text('abdABtu', min_size=lo, max_size=2))


def judge(lib, fst, words, pairs, pre, fol):
  changed = False
  for w in words:
    want = reference(w, pairs, pre, fol)
    if want is None:
      continue
    with sut('applying the rule'):
      got = lib.outputs(fst, w)
    eq(got, [real(want)], 'rewritten word', word=real(w), pairs=[(real(a), real(b)) for a, b in pairs],
       preceding=pre, following=fol)
    changed |= want != w
  return changed


WORDS = st.lists(word_strategy(), min_size=3, max_size=8)


def run(ctx):
  lib = Lib()
  pyn, al, cc, fl, rw = lib.pyn, lib.al, lib.cc, lib.fl, lib.rw
  E = al.EPSILON

  def args(pre, fol):
    """Keyword arguments for the two contexts."""
    (pa, pr), (fa, fr) = lib.ctx(pre), lib.ctx(fol)
    kw = {}
    if pa is not None:
      kw['preceding'] = pa
    if fa is not None:
      kw['following'] = fa
    return kw, pr, fr

  if ctx.sub.startswith('rewrite'):
    def one(case):
      kind, old, new, pre, fol, words = case
      kw, pr, fr = args(pre, fol)
      with sut(kind):
        if kind == 'rewrite':
          f, pairs = rw.rewrite(real(old), pyn.accep(real(new)), **kw), [(old, new)]
        elif kind == 'op':
          f, pairs = rw.rewrite_op(pyn.cross(real(old), real(new)), **kw), [(old, new)]
        elif kind == 'initial':
          kw.pop('preceding', None)
          pr = '^' + SKIP_L
          f, pairs = rw.rewrite_word_initial(real(old), real(new), **kw), [(old, new)]
        elif kind == 'final':
          kw.pop('following', None)
          fr = SKIP_R + '$'
          f, pairs = rw.rewrite_word_final(real(old), real(new), **kw), [(old, new)]
        elif kind == 'repeated':
          rep = [real(new)] if new else []
          f, pairs = rw.rewrite_repeated(real(old), *rep, **kw), [(old * 2, new or old)]
        elif kind == 'delete':
          f, pairs = rw.delete(real(old), **kw), [(old, '')]
        else:      # insertion of a symbol that no context mentions
          if pr is None and fr is None:
            kw, pr = {'preceding': real('a')}, 'a'
          f, pairs = rw.insert(real('v'), **kw), [('', 'v')]
      return judge(lib, f, words, pairs, pr, fr)
    kinds = st.sampled_from(['rewrite', 'rewrite', 'rewrite', 'op', 'initial', 'final', 'repeated', 'delete', 'insert'])
    ctx.check('rule', st.tuples(kinds, piece(), piece(0), contexts('bow'), contexts('eow'), WORDS).map(list),
              one, ctx.n(320, 6000))
  elif ctx.sub == 'reassign':
    def one(case):
      kind, left, old, new, second, pre, fol, words = case
      kw, pr, fr = args(pre, fol)
      pairs = [(left + '=' + old, left + '=' + new)]
      with sut(kind):
        if kind == 'reassign':
          f = rw.reassign(real(left), real(old), real(new), **kw)
        elif kind == 'initial':
          kw.pop('preceding', None)
          pr = '^' + SKIP_L
          f = rw.reassign_word_initial(real(left), real(old), real(new), **kw)
        elif kind == 'final':
          kw.pop('following', None)
          fr = SKIP_R + '$'
          f = rw.reassign_word_final(real(left), real(old), real(new), **kw)
        elif kind == 'op':
          f = rw.rewrite_op(al.realign(real(left), real(old), real(new)), **kw)
        else:
          l2, o2, n2 = second
          f = rw.reassign_adjacent_alignments(real(left), real(old), real(new), real(l2), real(o2), real(n2))
          pairs = [('%s=%s%s=%s' % (left, old, l2, o2), '%s=%s%s=%s' % (left, new, l2, n2))]
          pr = fr = None
      # Words with the unit the rule is about.
      o = pairs[0][0]
      words = words + [o, words[0] + o if '=' in words[0] else o, o + o + words[-1]]
      return judge(lib, f, words, pairs, pr, fr)
    kinds = st.sampled_from(['reassign', 'reassign', 'initial', 'final', 'op', 'adjacent'])
    left = st.sampled_from(['A', 'B', 'AB'])
    rhs = st.text('abdt', max_size=2)
    ctx.check('rule', st.tuples(kinds, left, rhs, rhs, st.tuples(left, rhs, rhs), contexts('bow'), contexts('eow'),
                                WORDS).map(list), one, ctx.n(320, 6000))
  elif ctx.sub == 'merge':
    def one(case):
      kind, l1, r1, l2, r2, new, pre, fol, words = case
      kw, pr, fr = args(pre, fol)
      if kind == 'equal':      # two alignments with the same right side, or the same altogether
        kind, r2, new = 'merge', r1, ''
        l2 = l1 if l2 == 'AB' else l2
      with sut(kind):
        if kind == 'merge':
          extra = {'new_right': pyn.accep(real(new))} if new else {}
          f = rw.merge(*[pyn.accep(real(x)) for x in (l1, r1, l2, r2)], **extra, **kw)
          pairs = [('%s=%s%s=%s' % (l1, r1, l2, r2), l1 + l2 + '=' + (new or r1 + r2))]
        else:
          extra = {'new_right': pyn.accep(real(new))} if new else {}
          f = rw.merge_repeated_alignment(pyn.accep(real(l1)), pyn.accep(real(r1)), **extra)
          pairs = [('%s=%s' % (l1, r1) * 2, l1 + l1 + '=' + (new or r1))]
          pr = fr = None
      o = pairs[0][0]
      words = words + [o, words[0] + o if '=' in words[0] else o, o + o + words[-1], l1 + '=' + r1 + o]
      return judge(lib, f, words, pairs, pr, fr)
    kinds = st.sampled_from(['merge', 'merge', 'equal', 'repeated'])
    left = st.sampled_from(['A', 'B', 'AB'])
    rhs = st.text('abdt', max_size=2)
    ctx.check('rule', st.tuples(kinds, left, rhs, left, rhs, rhs, contexts('bow'), contexts('eow'), WORDS).map(list),
              one, ctx.n(320, 6000))
  elif ctx.sub == 'lists':
    def one(case):
      kind, items, pre, fol, words = case
      kw, pr, fr = args(pre, fol)
      items = [tuple(i) for i in items]
      with sut(kind):
        if kind == 'rewrite_ls':
          pairs = [(o, n) for _, o, n in items if o]
          if not pairs:
            return False
          f = rw.rewrite_ls([(real(o), real(n)) for o, n in pairs], **kw)
        elif kind == 'repeated_ls':
          use = [(o, n) for _, o, n in items if o]
          if not use:
            return False
          pairs = [(o * 2, n or o) for o, n in use]
          f = rw.rewrite_repeated_ls([(real(o), real(n)) if n else (real(o),) for o, n in use], **kw)
        else:
          pairs = [('%s=%s' % (l, o), '%s=%s' % (l, n)) for l, o, n in items]
          f = rw.reassign_ls([tuple(map(real, i)) for i in items], **kw)
      words = words + [''.join(o for o, _ in pairs)]
      # Two rules of which one starts like the other leave a choice.
      olds = sorted({o for o, _ in pairs})
      if len(olds) < len(set(pairs)) or any(b.startswith(a) for a, b in zip(olds, olds[1:])):
        return False
      return judge(lib, f, words, pairs, pr, fr)
    item = st.tuples(st.sampled_from(['A', 'B', 'AB']), st.text('abdt', max_size=2), st.text('abdtu', max_size=2))
    ctx.check('rule', st.tuples(st.sampled_from(['rewrite_ls', 'repeated_ls', 'reassign_ls']),
                                st.lists(item, min_size=1, max_size=4), contexts('bow'), contexts('eow'), WORDS).map(list),
              one, ctx.n(320, 6000))
  else:
    parts(ctx, lib)


def parts(ctx, lib):
  """Pieces of alignments: what the constants and small functions accept."""
  pyn, al, cc, rw = lib.pyn, lib.al, lib.cc, lib.rw

  def accepts(fst, word):
    return pyn.compose(pyn.accep(word), fst).start() >= 0
  consts = {'SKIP_LEFT_SIDE': SKIP_L, 'SKIP_RIGHT_SIDE': SKIP_R, 'SKIP': SKIP, 'GRAPHEMES': '[ABC]*',
            'GRAPHEME': '[ABC]', 'PHONEME': '[abcde]', 'PHONEMES': '[abcde]*', 'TRANSLIT': '[tuv]',
            'TRANSLITS': '[tuv]*', 'R_SYMS': '[abcdetuv]*', 'SYMS': '[ABCabcdetuv]*', 'ALIGN_SIGN': '='}

  def constant(case):
    name, word = case
    want = re.fullmatch(consts[name], word) is not None
    eq(accepts(getattr(al, name), real(word)), want, name, word=real(word))
    return want
  short = st.one_of(word_strategy(), st.text('AB=abt', max_size=4))
  ctx.check('constants', st.tuples(st.sampled_from(sorted(consts)), short).map(list), constant, ctx.n(1500, 15000))

  def name(case):
    base, kind = case
    f = {'g': al.enclose_grapheme, 'p': al.enclose_phoneme, 't': al.enclose_translit}[kind]
    lo, hi = {'g': '<>', 'p': '{}', 't': '``'}[kind]
    with sut('enclose'):
      got = f(base).string()
    eq(got, lo + base + hi, 'enclosed')
    for k, c in (('g', al.GRAPHEME), ('p', al.PHONEME), ('t', al.TRANSLIT)):
      eq(accepts(c, got), k == kind, 'kind of symbol', symbol=got)
    return len(base) > 1
  ctx.check('names', st.tuples(st.text('abzAZ_+.*-&!:', max_size=4), st.sampled_from('gpt')).map(list), name, ctx.n(500, 5000))

  def small(case):
    l, r, n, word = case
    with sut('align, realign, assign'):
      eq(al.align(real(l), real(r)).string(), real(l + '=' + r), 'align')
      eq(lib.outputs(al.realign(real(l), real(r), real(n)), l + '=' + r), [real(l + '=' + n)], 'realign')
      eq(lib.outputs(al.realign(real(l), real(r), real(n)), l + '=' + r + 'a'), [], 'realign of something else')
      eq(lib.outputs(al.assign(real(l), real(r)), l), [real(l + '=' + r)], 'assign')
      eq(cc.repeat(pyn.accep(real(r))).string(), real(r + r), 'repeat')
      for f, skip in ((cc.concat_r, SKIP_L), (cc.concat_l, SKIP_R)):
        fst = f(real(l), real(r)) if f is cc.concat_r else f(real(l), real(r))
        for mid in ('', '=', 'A=', 'AB=', '=a', '=at', 'a', 'A', '=A', 'a='):
          want = re.fullmatch(re.escape(l) + skip + re.escape(r), l + mid + r) is not None
          eq(accepts(fst, real(l + mid + r)), want, f.__name__, word=real(l + mid + r))
    want = re.sub('[ABC=]', '', word)
    eq(lib.outputs(rw.EXTRACT_RIGHT_SIDE, word), [real(want)], 'EXTRACT_RIGHT_SIDE', word=real(word))
    return want != word
  sym = st.text('AabtB', min_size=1, max_size=2)
  ctx.check('functions', st.tuples(sym, sym, sym, word_strategy()).map(list), small, ctx.n(400, 4000))
