"""C03: wordpiece segmentation."""
import os

from lib import cc
from lib.pbt import eq, fail, st

TARGETS = []
RULE = (
    'The C++ source is compiled from the working tree with address and undefined-behaviour '
    'sanitizers. Cases: generated vocabularies (most entries grown from the text, so that merges '
    'chain and compete; duplicates; single characters; unreachable entries), word-initial marks of '
    'zero to two characters, texts over a small alphabet of 1- to 4-byte characters with several '
    'kinds of whitespace, initialization from a list, twice, or from a file with trailing columns. '
    'Oracle: a naive list model of best-ranked-pair merging. Non-trivial: a merge took place and '
    'a pair that is in the vocabulary lost to a better-ranked one, or a transducer over two words.')


def prepare(scratch, env, tier):
  env['CC_BIN'] = cc.build(scratch, 'wordpiece', [
      'nisaba/translit/fst/wordpiece-segmenter.cc', 'nisaba/port/utf8_delimiters.cc',
      'nisaba/port/unicode_properties.cc', 'nisaba/port/utf8_util.cc'])


def subs(tier):
  return ['pieces0', 'pieces1', 'file', 'fst', 'faults']


SPACES = [' ', ' ', '\t', '\n', '\u3000', '\u00a0', '  ']
ALPHABET = ['a', 'b', 'क', 'ि', '𑄇', '\u200d', '▁']


def model(vocab, prefix, text):
  rank = {}
  for i, v in enumerate(vocab):
    rank.setdefault(v, i)
  prefix = prefix or '▁'
  out, contest = [], False
  for word in text.translate({0x3000: ' ', 0xa0: ' '}).split():
    pieces = list(prefix + word)
    while True:
      pairs = [(rank[a + b], i) for i, (a, b) in enumerate(zip(pieces, pieces[1:])) if a + b in rank]
      if not pairs:
        break
      _, i = min(pairs)
      contest |= len(pairs) > 1
      pieces[i:i + 2] = [pieces[i] + pieces[i + 1]]
    out += pieces
  return out, contest


@st.composite
def case(draw, file=False):
  alphabet = draw(st.lists(st.sampled_from(ALPHABET), min_size=1, max_size=4, unique=True))
  word = st.lists(st.sampled_from(alphabet), min_size=1, max_size=9).map(''.join)
  words = draw(st.lists(word, max_size=4))
  text = draw(st.sampled_from(['', ' ', '\n']))
  for w in words:
    text += w + draw(st.sampled_from(SPACES))
  if draw(st.booleans()):
    text = text.rstrip()
  prefix = draw(st.sampled_from(['', '▁', '▁', '#', '##', 'a', 'क']))
  vocab = []
  for _ in range(draw(st.integers(0, 8))):
    if words and draw(st.booleans()):
      # A piece of the text or two pieces put together.
      w = (prefix or '▁') + draw(st.sampled_from(words))
      i = draw(st.integers(0, max(0, len(w) - 2)))
      j = draw(st.integers(i + 1, min(len(w), i + 4)))
      vocab.append(w[i:j])
      if vocab[-1] and draw(st.booleans()):
        vocab.append(vocab[-1][:draw(st.integers(1, len(vocab[-1])))])
    elif len(vocab) > 1 and draw(st.booleans()):
      vocab.append(draw(st.sampled_from(vocab)) + draw(st.sampled_from(vocab)))
    else:
      vocab.append(draw(st.lists(st.sampled_from(alphabet + [prefix]), min_size=1, max_size=4).map(''.join)))
  vocab = draw(st.permutations([v for v in vocab if v]))
  return [list(vocab), prefix, text, draw(st.sampled_from(['vector', 'vector', 'again']))]


def run(ctx):
  p = cc.Proc(os.environ['CC_BIN'])
  try:
    globals()['run_' + ctx.sub.rstrip('01')](ctx, p)
  finally:
    p.close()


def judge(r, vocab, prefix, text, c):
  want, contest = model(vocab, prefix, text)
  got = [x.decode() for x in r[2:]]
  eq(got, want, 'pieces', case=c)
  eq(r[0].decode(), ' '.join(want), 'tokenized text', case=c)
  eq(r[1], b'same', 'same for both kinds of string')
  return contest


def run_pieces(ctx, p):
  def fn(c):
    vocab, prefix, text, how = c
    r = p.ok('pieces', how, prefix, text, len(vocab), *vocab)
    return judge(r, vocab, prefix, text, c)
  ctx.check('pieces', case(), fn, ctx.n(2000, 40000))


def run_file(ctx, p):
  def fn(c):
    (vocab, prefix, text, _), cols, last = c
    vocab = [v for v in vocab if v.split() == [v]]
    name = os.path.join(os.environ['TMPDIR'], 'v')
    with open(name, 'w', encoding='utf8', newline='') as f:
      f.write('\n'.join(cols[i % len(cols)][0] + v + cols[i % len(cols)][1]
                        for i, v in enumerate(vocab)) + last)
    r = p.ok('pieces', 'file', prefix, text, 1, name)
    return judge(r, vocab, prefix, text, c)
  ctx.check('file', st.tuples(case(), st.lists(st.sampled_from(
      [['', ''], ['', '\t-3.5'], ['', ' 12'], [' ', ''], ['\n\n', ''], ['', '\r'], ['', '\u3000x y']]),
      min_size=1, max_size=3), st.sampled_from(['', '\n', '\n\n'])).map(list), fn, ctx.n(1200, 15000))


def run_fst(ctx, p):
  def fn(c):
    (vocab, prefix, text, how), keep, unk, extra = c
    texts = list(dict.fromkeys(text.split())) + extra
    texts = list(dict.fromkeys(t for t in texts if t != '<eps>'))
    words = [(i + 1 + i % 2 * 50, t, 'x' not in keep[i % len(keep)]) for i, t in enumerate(texts)]
    known = sorted({x for t in texts for x in model(vocab, prefix, t)[0]})
    known = [x for i, x in enumerate(known) if keep[i % len(keep)] != 'y']
    ids = {x: i + 1 for i, x in enumerate(known)}
    if unk:
      ids[unk] = len(known) + 7
    args = []
    for i, t, u in words:
      args += [i, t, '1' if u else '0']
    flat = []
    for x, i in ids.items():
      flat += [i, x]
    r = p.ok('fst', how, prefix, '', len(vocab), *vocab, len(words), *args, unk or '<none>', len(ids), *flat)
    want, oov = set(), False
    for i, t, u in words:
      if u:
        pieces = model(vocab, prefix, t)[0]
        oov |= any(x not in ids for x in pieces)
        want.add(((i,), tuple(ids.get(x, ids.get(unk)) for x in pieces)))
    if oov and not unk:
      eq(r, [b'error'], 'a piece without a symbol needs an unknown symbol', case=c)
      return False
    start = int(r[0])
    arcs, finals = {}, []
    for x in r[1:]:
      x = x.decode().split()
      if x[0] == 'final':
        finals.append([int(x[1]), float(x[2])])
      else:
        arcs.setdefault(int(x[1]), []).append([int(x[2]), int(x[3]), int(x[4])])
        eq(float(x[5]), 0.0, 'arcs are free', case=c)
    eq(finals, [[start, 0.0]], 'the start is the final state', case=c)
    got = set()

    def walk(q, i, o, n):
      if n > 100:
        fail('a cycle that avoids the start state', case=c)
      for a, b, q2 in arcs.get(q, []):
        i2, o2 = i + ((a,) if a else ()), o + ((b,) if b else ())
        if q2 == start:
          got.add((i2, o2))
        else:
          walk(q2, i2, o2, n + 1)
    walk(start, (), (), 0)
    eq(got, want, 'words and their pieces', case=c)
    return len(want) > 1
  ctx.check('fst', st.tuples(
      case(), st.lists(st.sampled_from('aaaxy'), min_size=1, max_size=4),
      st.sampled_from(['', '<unk>']), st.lists(st.sampled_from(['ab', 'a b', 'कि']), max_size=2)).map(list),
            fn, ctx.n(1200, 15000))


def run_faults(ctx, p):
  def fn(name):
    eq(p.ok('pieces', 'file', '', 'a', 1, os.path.join(os.environ['TMPDIR'], name)), [b'error'], 'missing file')
    return True
  ctx.enum('missing', ['none', 'nodir/x'], fn)
