"""C08: decoding with pair language models."""
import collections
import heapq
import itertools
import math
import os

from lib import cc
from lib.pbt import eq, fail, st

from props import c03

TARGETS = []
RULE = (
    'The C++ sources are compiled from the working tree under an address sanitizer and, with a '
    'mutex that perturbs the schedule, under a thread sanitizer. Cases: generated pair models (one '
    'state to bigrams with backoff; pairs that insert and delete; as pairs or as a transducer; '
    'inverted), listed candidates (mixed or overriding), word, word-piece and character-piece '
    'language models with backoff, texts with words inside, outside and partly outside of the '
    'model, several lines given one after another or by several threads, one to eight words at a '
    'time, with and without the cache. Oracle: least-cost-first enumeration of the pair sequences '
    'of each word and exact posteriors over all choices of candidates. Non-trivial: a word with '
    'several candidates, or several threads.')

SOURCES = ['nisaba/translit/fst/pairlm_decoder.cc', 'nisaba/translit/fst/pairlm_decoder_runner.cc',
           'nisaba/translit/fst/wordpiece-segmenter.cc', 'nisaba/port/file_util.cc',
           'nisaba/port/utf8_delimiters.cc', 'nisaba/port/unicode_properties.cc',
           'nisaba/port/utf8_util.cc']
PROTO = 'nisaba/translit/fst/pairlm_decoder_options.proto'


def prepare(scratch, env, tier):
  def one(name, san):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    cc.protoc(d, 'pairlm', [PROTO])
    env['CC_' + name] = cc.build(
        d, 'pairlm', SOURCES + [os.path.join(d, 'cc-pairlm', PROTO.replace('.proto', '.pb.cc'))],
        san=san, opt='-O0', cflags=['-include', os.path.join(cc.HERE, 'cc/sync.h'), '-DVERIF_SYNC_FST'])
  with cc.cf.ThreadPoolExecutor(2) as ex:
    list(ex.map(lambda a: one(*a), [('asan', 'address'), ('tsan', 'thread')]))


def subs(tier):
  return ['asan_words0', 'asan_words1', 'asan_lm0', 'asan_lm1', 'asan_sample', 'asan_runner',
          'asan_special', 'tsan_words', 'tsan_lm', 'tsan_runner']


def run(ctx):
  kind, what = ctx.sub.rstrip('01').split('_')
  ctx.schedules = True
  p = cc.Proc(os.environ['CC_' + kind], timeout=60)
  if kind == 'tsan':
    p = cc.tsan_proc(p)
  try:
    globals()['run_' + what](ctx, p, kind == 'tsan')
  finally:
    p.close()


def tmp(name):
  return os.path.join(os.environ['TMPDIR'], name)


def write(name, lines):
  with open(tmp(name), 'w', encoding='utf8', newline='') as f:
    f.write(''.join(line + '\n' for line in lines))
  return tmp(name)


# The model of a pair language model and of its decoder.


class Ambiguous(Exception):
  """Equal costs, or a threshold, leave the answer open."""


NEAR = 0.004


def logsum(costs):
  least = min(costs)
  return least - math.log(sum(math.exp(least - c) for c in costs))


class Automaton:
  """Backoff automaton: final, back (cost, state) or None, arcs {label: (cost, state)}."""

  def __init__(self, m, labels):
    self.start = m['start']
    self.final = list(m['final'])
    self.back = m['back']
    self.arcs = [collections.defaultdict(list) for _ in self.final]
    for (s, d, w), label in zip(m['arcs'], labels):
      self.arcs[s][label].append((w, d))

  def step(self, s, label):
    cost = 0.0
    while label not in self.arcs[s]:
      if self.back[s] is None:
        return None
      cost += self.back[s][0]
      s = self.back[s][1]
    (w, d), = self.arcs[s][label]
    return cost + w, d

  def end(self, s, top=True):
    if self.final[s] is not None:
      return self.final[s]
    if self.back[s] is None or (top and s == self.start):
      return None
    f = self.end(self.back[s][1], False)
    return None if f is None else f + self.back[s][0]


def paths(model, word, k):
  """The k + 1 least costly output sequences (zeros for nothing) with costs."""
  pairs = [tuple(x) for x in model['pairs']]
  by_in = collections.defaultdict(list)
  trans = model['trans']
  if trans:
    arcs = collections.defaultdict(list)
    for (s, d, w), (i, o) in zip(model['arcs'], (pairs[x] for x in model['labels'])):
      arcs[s].append((i, o, w, d))
    for s, b in enumerate(model['back']):
      if b is not None:
        arcs[s].append((0, 0, b[0], b[1]))
  else:
    a = Automaton(model, [pairs[x] for x in model['labels']])
    for i, o in set(pairs):
      by_in[i].append(o)
  chars = [ord(c) for c in word]
  heap = [(0.0, 0, model['start'], ())]
  seen, out = set(), []
  done = set()
  count = 0
  while heap and len(out) <= k:
    cost, i, s, seq = heapq.heappop(heap)
    if (i, s, seq) in seen:
      continue
    seen.add((i, s, seq))
    count += 1
    if count > 4000:
      raise Ambiguous('too many paths')
    if i == -1:
      if seq not in done:
        done.add(seq)
        out.append((seq, cost))
      continue
    if i == len(chars):
      f = model['final'][s] if trans else a.end(s)
      if f is not None:
        heapq.heappush(heap, (cost + f, -1, s, seq))
    if trans:
      for x, o, w, d in arcs[s]:
        if x == 0 or (i < len(chars) and chars[i] == x):
          heapq.heappush(heap, (cost + w, i + (x != 0), d, seq + (o,)))
    else:
      for x in [0] + ([chars[i]] if i < len(chars) else []):
        for o in by_in[x]:
          r = a.step(s, (x, o))
          if r is not None:
            heapq.heappush(heap, (cost + r[0], i + (x != 0), r[1], seq + (o,)))
  return out


def cut(items, k):
  """The k least costly items; refuses to choose among equals."""
  items = sorted(items, key=lambda x: x[1])
  if len(items) > k and items[k][1] - items[k - 1][1] < NEAR:
    raise Ambiguous('tie')
  return items[:k]


class Model:

  def __init__(self, m):
    self.m = m
    self.pair = m['pair']
    self.covered = {i for i, _ in (self.pair['pairs'] if self.pair else [])} - {0}
    if self.pair and self.pair['trans']:
      self.covered = {self.pair['pairs'][x][0] for x in self.pair['labels']} - {0}
    self.ext = collections.defaultdict(dict)
    for i, o, c in m['cands']:
      self.ext[i][o] = c
    for i in self.ext:
      z = logsum(self.ext[i].values())
      self.ext[i] = {o: c - z for o, c in self.ext[i].items()}

  def plain(self, word, k):
    """[(string, cost)] of a word or part of one; whether they are listed ones."""
    if self.pair:
      found = paths(self.pair, word, k)
      if found:
        if k > 1:
          limit = found[0][1] + (12 if self.m['thresh'] is None else self.m['thresh'])
          if len(word) == 1 and all(i for i, _ in self.pair['pairs']):
            if any(abs(c - limit) < NEAR for _, c in found):
              raise Ambiguous('at the threshold')
            found = [(s, c) for s, c in found if c < limit]
          elif found[min(k, len(found)) - 1][1] > limit - NEAR:
            raise Ambiguous('beyond the threshold')
        return [(''.join(chr(x) for x in s if x), c) for s, c in cut(found, k)], False
    if word in self.ext:
      return list(self.ext[word].items()), True
    return [(word, 0.0)], False

  def word(self, word, k):
    """{string: cost} with probabilities that sum to one."""
    if self.m['override'] and word in self.ext:
      return dict(self.ext[word])
    parts = [''.join(g) for _, g in itertools.groupby(word, lambda c: ord(c) in self.covered)]
    if len(parts) > 1:
      lists = []
      for part in parts:
        least = {}
        for s, c in self.plain(part, k)[0]:
          least[s] = min(c, least.get(s, c))
        lists.append(list(least.items()))
      got = cut([(tuple(s for s, _ in x), sum(c for _, c in x)) for x in itertools.product(*lists)], k)
      got = [(''.join(s), c) for s, c in got]
    else:
      got, listed = self.plain(word, k)
      if listed:
        return dict(got)
    weight = 0.0
    if self.pair and self.m['cands'] and self.m['weight'] is not None:
      weight = -math.log(self.m['weight'] / (1 - self.m['weight']))
    best, costs = {}, collections.defaultdict(list)
    for s, c in got:
      best[s] = min(c, best.get(s, c))
    for s, c in best.items():
      costs[s].append(c + weight)
    for s, c in self.ext.get(word, {}).items():
      costs[s].append(c)
    z = logsum([c for x in costs.values() for c in x])
    return {s: logsum(c) - z for s, c in costs.items()}

  def line(self, words, k):
    """Per word: {string: cost}, all of them; posteriors if there is a language model."""
    lm = self.m['lm']
    if not lm:
      return [self.word(w, k) for w in words]
    places = [list(self.word(w, self.m['max'] or 100).items()) for w in words]
    if math.prod(len(x) for x in places) > 3000:
      raise Ambiguous('too many choices')
    a = Automaton(lm, [lm['symbols'][x] for x in lm['labels']])

    def pieces(word):
      """Labels and how many of them are unknown."""
      if lm['kind'] == 'word':
        got = [word]
      elif lm['kind'] == 'wpm':
        got, _ = c03.model(lm['vocab'], lm['prefix'], word)
      else:
        got, i = [], 0
        while i < len(word):
          head = lm['prefix'] if i else ''
          best = max((n for n in range(1, len(word) - i + 1)
                      if head + word[i:i + n] in lm['symbols'][1:] and head + word[i:i + n] != lm['oov']),
                     default=0)
          got.append(head + word[i:i + best] if best else None)
          i += best or 1
      got = got or [None]
      labels = [x if x in lm['symbols'][1:] else None for x in got]
      return [lm['oov'] if x is None else x for x in labels], labels.count(None)

    def score(words):
      s, cost = a.start, 0.0
      for w in words:
        labels, unknown = pieces(w)
        cost += unknown * (10 if lm['oov_cost'] is None else lm['oov_cost'])
        for x in labels:
          r = a.step(s, x)
          if r is None:
            return None
          cost, s = cost + r[0], r[1]
      f = a.end(s)
      return None if f is None else cost + f

    if lm['level']:
      out = []
      for p in places:
        got = {s: c + score([s]) for s, c in p}
        z = logsum(got.values())
        out.append({s: c - z for s, c in got.items()})
      return out
    out = [collections.defaultdict(list) for _ in places]
    every = []
    for choice in itertools.product(*places):
      c = sum(c for _, c in choice) + score([s for s, _ in choice])
      every.append(c)
      for o, (s, _) in zip(out, choice):
        o[s].append(c)
    z = logsum(every)
    return [{s: logsum(c) - z for s, c in o.items()} for o in out]


# Generated models and texts.

IN = ['a', 'b', 'c', 'क']
OUT = ['A', 'B', 'C', 'ख', 'x', '𑄇']
FREE = ['x', 'é', '1']
COST = st.integers(200, 3500).map(lambda x: x / 1000)


@st.composite
def automaton(draw, labels, extra_start):
  """Unigram state 0, states for some contexts, perhaps a start state."""
  n = draw(st.integers(0, 2))
  contexts = draw(st.lists(st.sampled_from(labels), min_size=n, max_size=n, unique=True)) if len(labels) >= n else []
  states = 1 + len(contexts)
  dest = {x: 1 + i for i, x in enumerate(contexts)}
  arcs, names = [], []
  back, final = [None], [draw(COST)]
  for x in labels:
    arcs.append([0, dest.get(x, 0), draw(COST)])
    names.append(x)

  def more(s):
    for x in draw(st.lists(st.sampled_from(labels), max_size=3, unique=True)):
      arcs.append([s, dest.get(x, 0), draw(COST)])
      names.append(x)
  for s in range(1, states):
    back.append([draw(COST), 0])
    final.append(draw(st.one_of(st.none(), COST)))
    more(s)
  start = 0
  if extra_start and draw(st.booleans()):
    start = states
    back.append([draw(COST), 0])
    final.append(None)
    more(start)
  return {'start': start, 'final': final, 'back': back, 'arcs': arcs}, names


@st.composite
def pair_model(draw):
  def pair():
    i = draw(st.sampled_from([ord(c) for c in IN * 3] + [0]))
    return [i, draw(st.sampled_from([ord(c) for c in OUT * 2] + ([0] if i else [])))]
  pairs = []
  for _ in range(draw(st.integers(1, 7))):
    x = pair()
    if x not in pairs:
      pairs.append(x)
  a, labels = draw(automaton(range(len(pairs)), True))
  return dict(a, labels=labels, pairs=pairs, trans=draw(st.booleans()), invert=draw(st.booleans()))


def words(known, free=3):
  c = st.sampled_from(known * 3 + FREE * free)
  return st.one_of(st.lists(st.sampled_from(known), min_size=1, max_size=4).map(''.join),
                   st.lists(c, min_size=1, max_size=5).map(''.join))


GAP = st.sampled_from([' ', ' ', '  ', '\t', '\u3000'])


@st.composite
def model(draw, with_lm):
  pair = draw(st.one_of(pair_model(), pair_model(), pair_model(), st.none()))
  known = sorted({chr(i) for i, _ in pair['pairs']} - {'\0'}) if pair else []
  known = known or ['a']
  if not draw(st.integers(0, 3)):
    known = known + ['b']
  pool = draw(st.lists(words(known), min_size=1, max_size=5))
  if draw(st.booleans()):  # A part of a word that is also a word.
    w = draw(st.sampled_from(pool))
    pool += [''.join(g) for _, g in itertools.groupby(w, lambda c: c in known)]
  cands = []
  for _ in range(draw(st.sampled_from([0, 0, 1, 3, 5]))):
    cands.append([draw(st.sampled_from(pool)),
                  ''.join(draw(st.lists(st.sampled_from(OUT + FREE), min_size=1, max_size=3))),
                  draw(COST)])
  m = {'pair': pair, 'cands': cands, 'override': draw(st.sampled_from([False, False, True])),
       'weight': draw(st.sampled_from([None, None, 0.5, 0.9, 0.2])),
       'thresh': draw(st.sampled_from([None, 40, 40, 2])), 'max': None, 'lm': None, 'post': None,
       'cache': draw(st.sampled_from([None, True, False])), 'parallel': draw(st.sampled_from([None, 1, 2, 8]))}
  if not m['cands']:
    m['override'], m['weight'] = False, None
  k = draw(st.sampled_from([1, 2, 2, 3, 5]))
  m['post'] = draw(st.sampled_from([None, None, 0.05, 0.3]))
  if with_lm:
    m['max'] = draw(st.integers(1, 4))
    m['post'] = draw(st.sampled_from([None, None, 0.05, 0.3]))
    outs = set()
    for w in pool:
      try:
        outs |= set(Model(m).word(w, m['max']))
      except Ambiguous:
        pass
    outs = sorted(outs - {''}) or ['A']
    kind = draw(st.sampled_from(['word', 'word', 'wpm', 'trie']))
    prefix = draw(st.sampled_from(['', '▁', '#'])) if kind == 'wpm' else '##'
    lm = {'kind': kind, 'prefix': prefix, 'oov': draw(st.sampled_from(['<UNK>', '<unk>'])),
          'oov_cost': draw(st.sampled_from([None, 0.0, 1.5])), 'level': draw(st.sampled_from([False, False, True])),
          'vocab': None}
    chars = sorted({c for o in outs for c in o})
    some = st.lists(st.sampled_from(outs), max_size=3, unique=True)
    if kind == 'word':
      symbols = draw(st.lists(st.sampled_from(outs), max_size=4, unique=True))
    elif kind == 'wpm':
      mark = prefix or '▁'
      every = [mark + c for c in chars] + chars + [mark]
      lm['vocab'] = [v for v in draw(st.permutations([mark + c for c in chars] + [
          x[:draw(st.integers(1, len(x)))] for x in draw(some)] + draw(some)))]
      symbols = draw(st.lists(st.sampled_from(every + lm['vocab']), max_size=6, unique=True))
    else:
      head = st.sampled_from(chars + [x[:2] for x in outs])
      symbols = draw(st.lists(head, max_size=4, unique=True)) + ['##' + chars[0]]
      symbols += ['##' + x for x in draw(st.lists(head, max_size=3, unique=True))]
      symbols = list(dict.fromkeys(symbols))
    symbols = ['<epsilon>'] + [s for s in symbols if s not in ('<epsilon>',)] + [lm['oov']]
    lm['symbols'] = symbols
    a, labels = draw(automaton(range(1, len(symbols)), True))
    m['lm'] = dict(lm, labels=labels, **a)
  lines = []
  for _ in range(draw(st.integers(1, 3))):
    t = ''
    for w in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3)):
      t += w + draw(GAP)
    lines.append(t)
  return [m, k, lines]


def write_fst(p, name, a, labels, symbols):
  """labels: [(in, out)] of the arcs."""
  fields = []
  for s, b in enumerate(a['back']):
    if b is not None:
      fields.append('%d %d 0 0 %r' % (s, b[1], b[0]))
  for (s, d, w), (i, o) in zip(a['arcs'], labels):
    fields.append('%d %d %d %d %r' % (s, d, i, o, w))
  for s, f in enumerate(a['final']):
    if f is not None:
      fields.append('%d %r' % (s, f))
  p.ok('write', tmp(name), '\n'.join(symbols or []), a['start'], *fields)
  return tmp(name)


def options(p, m):
  o = []

  def put(name, value):
    if value is None:
      return
    if isinstance(value, str):
      value = '"%s"' % ''.join('\\%03o' % b for b in value.encode())
    o.append('%s: %s' % (name, str(value).lower() if isinstance(value, bool) else value))
  a = m['pair']
  if a:
    pairs = [tuple(x[::-1]) if a['invert'] else tuple(x) for x in a['pairs']]
    if a['trans']:
      put('pairlm_file', write_fst(p, 'pair.fst', a, [pairs[x] for x in a['labels']], None))
      put('pairlm_is_transducer', True)
    else:
      put('pairlm_file', write_fst(p, 'pair.fst', a, [(x + 1, x + 1) for x in a['labels']],
                                   ['<epsilon>'] + ['%d;%d' % x for x in pairs] + ['<UNK>']))
    if a['invert']:
      put('invert_pairlm', True)
  if m['cands']:
    put('translit_cands_file', write('cands', ['%s\t%s\t%r' % tuple(x) for x in m['cands']]))
    put('translit_cands_override', m['override'] or None)
    put('pairlm_translit_weight', m['weight'])
  put('word_cand_thresh', m['thresh'])
  put('add_to_cache', m['cache'])
  put('max_parallel_tokens', m['parallel'])
  put('max_word_cands', m['max'])
  put('min_cand_posterior', m['post'])
  lm = m['lm']
  if lm:
    put('lm_file', write_fst(p, 'lm.fst', lm, [(x, x) for x in lm['labels']], lm['symbols']))
    put('oov_symbol', lm['oov'] if lm['oov'] != '<UNK>' else None)
    put('oov_cost', lm['oov_cost'])
    put('apply_lm_at_word_level', lm['level'] or None)
    if lm['kind'] == 'wpm':
      put('word_piece_model', write('wpm', lm['vocab']))
      put('word_piece_word_initial_prefix', lm['prefix'] or None)
    elif lm['kind'] == 'trie':
      put('word_piece_internal_prefix', lm['prefix'])
  if m.get('sample'):
    put('sample_from_k_best', True)
    put('random_seed', m['sample'])
  return '\n'.join(o)


def take(r, pos):
  """[[(input, output, cost), ...] per word], printed form, end."""
  n = int(r[pos])
  pos += 1
  places = []
  for _ in range(n):
    c = int(r[pos])
    places.append([(r[pos + 1 + 3 * i].decode(), r[pos + 2 + 3 * i].decode(), float(r[pos + 3 + 3 * i]))
                   for i in range(c)])
    pos += 1 + 3 * c
  return places, r[pos].decode(), pos + 1


def printed(places, text, prefix, case):
  lines = text.split('\n')
  eq(lines.pop(), '', 'the last line ends', text=text)
  flat = [(str(i), x[0], x[1], x[2]) for i, place in enumerate(places) for x in place]
  eq(len(lines), len(flat), 'lines printed', text=text, case=case)
  for line, want in zip(lines, flat):
    cols = line.split('\t')
    eq(cols[:-1], prefix + list(want[:-1]), 'line printed', case=case)
    if not math.isclose(float(cols[-1]), want[-1], rel_tol=1e-4, abs_tol=1e-4):
      fail('cost printed', line=line, want=want)


def judge(m, k, line, places, case):
  """Whether a word has several candidates."""
  words = line.split()
  eq([[x[0] for x in p][:1] for p in places], [[w] for w in words], 'words', case=case)
  try:
    want = Model(m).line(words, k)
  except Ambiguous:
    want = None
  rich = False
  for i, place in enumerate(places):
    eq({x[0] for x in place}, {words[i]}, 'the word of a place', case=case)
    outs = [x[1] for x in place]
    eq(len(set(outs)), len(outs), 'different candidates', outs=outs, case=case)
    if len(outs) > k:
      fail('more than k candidates', outs=outs, k=k, case=case)
    if sum(math.exp(-x[2]) for x in place) > 1.002:
      fail('probabilities sum to more than one', place=place, case=case)
    if want is None:
      continue
    w = sorted(want[i].items(), key=lambda x: x[1])
    got = {x[1]: x[2] for x in place}
    if m['lm'] and m['lm']['level']:
      z = logsum([c for s, c in got.items()]) - logsum([want[i].get(s, 0) for s in got])
      got = {s: c - z for s, c in got.items()}
    else:
      z = 0.0
    low = -math.log(m['post']) - z if m['post'] else None
    rich |= len(w) > 1
    sure = [s for n, (s, c) in enumerate(w) if n < k and
            (len(w) <= k or w[k][1] - c > NEAR * (1 + c / 10)) and
            (n == 0 or low is None or c < low - NEAR)]
    if w[:1] and len(w) > 1 and w[1][1] - w[0][1] < NEAR and low is not None and w[1][1] > low - NEAR:
      sure = []
    may = [s for n, (s, c) in enumerate(w) if (n < k or c - w[k - 1][1] < NEAR * (1 + c / 10)) and
           (c - w[0][1] < NEAR or low is None or c < low + NEAR)]
    if not set(sure) <= set(got) or not set(got) <= set(may):
      fail('candidates of a word', word=words[i], got=got, want=w, case=case)
    for s, c in got.items():
      if abs(c - want[i][s]) > NEAR * (1 + c / 10):
        fail('cost of a candidate', word=words[i], candidate=s, got=got, want=w, case=case)
  return rich


def decode(ctx, p, with_lm, n):
  def fn(case):
    (m, k, lines), threads, seed = case
    p.ok('new', options(p, m))
    r = p.ok('lines', k, threads, seed, *lines)
    pos, rich = 0, threads > 1 and len(lines) > 1
    for line in lines:
      places, text, pos = take(r, pos)
      rich |= judge(m, k, line, places, case)
      printed(places, text, ['7'], case)
    eq(pos, len(r), 'answers', case=case)
    listed = {x[0] for x in m['cands']}
    for w in sorted({w for x in lines for w in x.split()}) + ['nowhere']:
      want = w in listed or (w != 'nowhere' and m['cache'] is not False)
      eq(p.ok('cached', w)[0], b'1' if want else b'0', 'word in the cache', word=w, case=case)
    # Once more: whatever was cached, the answer is the same.
    for line in lines:
      r = p.ok('line', k, line)
      places, text, _ = take(r, 0)
      judge(m, k, line, places, case)
    return rich
  ctx.check('lm' if with_lm else 'words', st.tuples(
      model(with_lm), st.sampled_from([1, 1, 2, 4]), st.integers(0, 10**6)).map(list), fn, n)


def run_words(ctx, p, tsan):
  decode(ctx, p, False, ctx.n(250, 2500) if tsan else ctx.n(500, 8000))


def run_lm(ctx, p, tsan):
  decode(ctx, p, True, ctx.n(200, 2000) if tsan else ctx.n(400, 6000))


def run_sample(ctx, p, tsan):
  def fn(case):
    m, k, lines = case
    rich = False
    for seed in (1, 22, 333):
      m = dict(m, sample=seed, parallel=1)
      p.ok('new', options(p, m))
      for line in lines:
        places, text, _ = take(p.ok('line', k, line), 0)
        eq([len(x) for x in places], [1] * len(line.split()), 'one candidate for each word', case=case)
        printed(places, text, ['7'], case)
        again, _, _ = take(p.ok('line', k, line), 0)
        eq(len(again), len(places), 'words', case=case)
        try:
          want = Model(m).line(line.split(), k)
        except Ambiguous:
          continue
        for w, got in zip(want, places + again):
          w = sorted(w.items(), key=lambda x: x[1])
          if got[0][1] not in [s for s, c in w if c <= w[min(k, len(w)) - 1][1] + NEAR]:
            fail('not one of the k best', got=got, want=w, case=case)
          rich |= len(w) > 1
    return rich
  ctx.check('sample', model(False), fn, ctx.n(100, 1000))

  def often(case):
    a, b = case
    m = {'pair': None, 'cands': [['a', 'A', a], ['a', 'B', b]], 'override': False, 'weight': None,
         'thresh': None, 'max': None, 'lm': None, 'post': None, 'cache': None, 'parallel': 1}
    seen = collections.Counter()
    n = 150
    for seed in range(1, n + 1):
      p.ok('new', options(p, dict(m, sample=seed * 7919)))
      places, _, _ = take(p.ok('line', 2, 'a'), 0)
      seen[places[0][0][1]] += 1
    z = logsum([a, b])
    x = math.exp(z - a)
    if abs(seen['A'] - n * x) > 6 * math.sqrt(n * x * (1 - x)) + 1:
      fail('samples do not follow the probabilities', case=case, seen=dict(seen), expected=n * x)
    return True
  ctx.enum('often', [[0.0, 3.0], [0.5, 0.5], [2.0, 0.5]], often)


def judge_file(m, k, lines, case):
  """The file written for these lines."""
  with open(tmp('out'), encoding='utf8', newline='') as f:
    text = f.read()
  if text and not text.endswith('\n'):
    fail('the last line is cut', out=text)
  rows = [x.split('\t') for x in text.split('\n')[:-1]]
  eq([int(x[0]) for x in rows], sorted(int(x[0]) for x in rows), 'lines in order', case=case, out=text)
  for i, line in enumerate(lines):
    places = []
    for row in rows:
      if row[0] == str(i):
        s = int(row[1])
        if s > len(places):
          fail('places in order', rows=rows, case=case)
        if s == len(places):
          places.append([])
        places[s].append((row[2], row[3], float(row[4])))
    judge(m, k, line, places, case)
  eq(max([int(x[0]) for x in rows], default=0), len(lines) - 1, 'number of lines', case=case)


def run_runner(ctx, p, tsan):
  def fn(case):
    (m, k, lines), workers, seed, notes = case
    for n in notes:
      lines = lines[:n] + ['# a note'] + lines[n:]
    name = write('text', lines)
    if os.path.exists(tmp('out')):
      os.unlink(tmp('out'))
    eq(p.ok('run', options(p, m), k, workers, seed, name, tmp('out'))[0], b'1', 'status', case=case)
    real = [x for x in lines if not x.startswith('#')]
    judge_file(m, k, real, case)
    return workers > 1 and len(real) > 1
  ctx.check('runner', st.tuples(
      model(False), st.sampled_from([0, 1, 2, 3, 4]), st.integers(0, 10**6),
      st.lists(st.integers(0, 3), max_size=2)).map(list), fn, ctx.n(120, 1200))
  if tsan:
    return

  def fault(case):
    ins, outs, workers = case
    good = write('text', ['a b', 'c'])
    there = {'good': good, 'none': tmp('nodir/x'), 'empty': '', 'full': '/dev/full', 'out': tmp('out')}
    eq(p.ok('run', '', 1, workers, 0, there[ins], there[outs])[0], b'0', 'a failure is reported', case=case)
    return True
  ctx.enum('faults', [[i, o, w] for w in (1, 2) for i, o in [
      ('none', 'out'), ('empty', 'out'), ('good', 'empty'), ('good', 'none'), ('good', 'full')]], fault)


def run_special(ctx, p, tsan):
  a = {'start': 0, 'final': [0.5], 'back': [None], 'arcs': [[0, 0, 1.0], [0, 0, 2.0]], 'labels': [0, 1],
       'pairs': [[97, 65], [97, 66]], 'trans': False, 'invert': False}
  lm = {'start': 1, 'final': [0.7, None], 'back': [None, [0.3, 0]],
        'arcs': [[0, 0, 1.0], [0, 0, 3.0]], 'labels': [1, 2], 'symbols': ['<epsilon>', 'A', '<UNK>'],
        'kind': 'word', 'prefix': '', 'oov': '<UNK>', 'oov_cost': None, 'level': False, 'vocab': None}
  base = {'pair': a, 'cands': [], 'override': False, 'weight': None, 'thresh': None, 'max': None, 'lm': None,
          'post': None, 'cache': None, 'parallel': None}

  def blank(case):
    use_lm, line = case
    p.ok('new', options(p, dict(base, lm=lm if use_lm else None)))
    places, text, _ = take(p.ok('line', 2, line), 0)
    eq((places, text), ([], ''), 'no words, no candidates', case=case)
    places, _, _ = take(p.ok('line', 2, 'a'), 0)
    judge(dict(base, lm=lm if use_lm else None), 2, 'a', places, case)
    return True
  ctx.enum('blank', [[u, t] for u in (False, True) for t in ('', ' ', '\t \u3000')], blank)

  def missing(case):
    name = tmp('nodir/x')
    eq(p.call('new', '%s: "%s"' % (case, name))[0], 'refused', 'a missing file is refused', case=case)
    return True
  ctx.enum('missing', ['pairlm_file', 'lm_file', 'translit_cands_file'], missing)

  def columns(case):
    name = write('bad', case)
    eq(p.call('new', 'translit_cands_file: "%s"' % name)[0], 'refused', 'malformed candidates', case=case)
    return True
  ctx.enum('columns', [['a\tb'], ['a\tb\t1\t2'], ['a\tb\tx'], ['a\tb\t1', 'c']], columns)

  def repeated(case):
    # A word many times, decoded by many threads at once.
    m, word, n, seed = case
    p.ok('new', options(p, dict(base, cands=m, parallel=8)))
    line = ' '.join([word] * n)
    r = p.ok('lines', 3, 3, seed, line, line, word)
    pos = 0
    for x in (line, line, word):
      places, _, pos = take(r, pos)
      judge(dict(base, cands=m), 3, x, places, case)
    return True
  ctx.check('repeated', st.tuples(
      st.sampled_from([[], [['a', 'X', 0.5]], [['aa', 'X', 1.0], ['aa', 'AB', 0.2]], [['1', 'one', 0.5]]]),
      st.sampled_from(['a', 'aa', 'a1', '1']), st.integers(2, 8), st.integers(1, 10**6)).map(list),
            repeated, ctx.n(150, 1500))
