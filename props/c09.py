"""C09: the rewriting library in C++ (interim/grm2)."""
import heapq
import os

import pynini

from lib import cc
from lib.pbt import Excluded, eq, fail, st

TARGETS = []
RULE = (
    'The C++ sources are compiled from the working tree under an address sanitizer and, with a '
    'mutex that perturbs the schedule, under a thread sanitizer. Cases: archives of one to three '
    'generated rules (weighted pairs of strings, optionally repeated, optionally with an endless '
    'costly tail; pushdown transducers; symbols generated for the archive), as '
    'bytes or as characters, and an input; every entry point is called. Random acyclic and cyclic '
    'transducers for the path iterator. Oracle: the composition of the relations computed on '
    'dictionaries, with a search over stacks for the pushdown rules. Non-trivial: the input is '
    'rewritten in more than one way, or by more than one rule, or not at all; a transducer with more '
    'than one path; several threads.')

SOURCES = ['nisaba/interim/grm2/thrax/rewrite-tester.cc',
           'nisaba/interim/grm2/thrax/walker/util/function/symbols.cc']
FLAGS = ['-DEXPAND=EXPAND_FILTER', '-DVERIF_SYNC_FST', '-include', os.path.join(cc.HERE, 'cc/sync.h')]
SYMS = '\ue001\ue002'          # Stand for the symbols generated for an archive.
LABEL = {c: 0xf00f1 + i for i, c in enumerate(SYMS)}
NAME = {c: 'sym%d' % i for i, c in enumerate(SYMS)}
PAREN = 0xf0100                # open k: PAREN + 2 k, close k: PAREN + 2 k + 1.


def prepare(scratch, env, tier):
  def one(name, san):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    try:
      env['CC_' + name] = cc.build(d, 'rewrite', SOURCES, san=san, opt='-O0', cflags=FLAGS + ['-DEXTRA'])
    except cc.CompileError as e:
      # Two entry points once did not compile for any caller.
      env['CC_' + name] = cc.build(d, 'rewrite', SOURCES, san=san, opt='-O0', cflags=FLAGS)
      env['CC_EXTRA'] = str(e)[:1500]
  with cc.cf.ThreadPoolExecutor(2) as ex:
    list(ex.map(lambda a: one(*a), [('asan', 'address'), ('tsan', 'thread')]))


def subs(tier):
  return ['asan_rules%d' % i for i in range(4)] + ['asan_pdt0', 'asan_pdt1', 'asan_tester', 'asan_paths',
                                                  'asan_loads', 'asan_assign', 'tsan_symbols']


def run(ctx):
  kind, what = ctx.sub.rstrip('0123').split('_')
  ctx.schedules = kind == 'tsan'
  p = cc.Proc(os.environ['CC_' + kind], timeout=60)
  if kind == 'tsan':
    p = cc.tsan_proc(p)
  try:
    globals()['run_' + what](ctx, p)
  finally:
    p.close()


# Labels.

def labels(s, mode):
  if mode.startswith('/'):
    return [LABEL[c] if c in LABEL else TOKENS.index(c) + 1 for c in s]
  out = []
  for c in s:
    if c in LABEL:
      out.append(LABEL[c])
    elif mode == 'utf8':
      out.append(ord(c))
    else:
      out += list(c.encode())
  return out


def printed(s, mode):
  """The bytes that an output is printed as."""
  if mode == 'utf8':
    return ''.join(chr(LABEL.get(c, ord(c))) for c in s).encode()
  return bytes(x & 255 for x in labels(s, mode))


def named(s, mode):
  """The same with generated symbols by name."""
  if mode == 'symbol':
    out = ''
    for c in s:
      out += '[%s]' % NAME[c] if c in NAME else ('\t ' if out else '') + 't_' + c
    return out.encode()
  return ''.join('[%s]' % NAME[c] if c in NAME else c for c in s).encode()


# Rules as transducers.

def chain(f, start, i, o, cost, end=None):
  n = max(len(i), len(o), 1)
  s = start
  for k in range(n):
    t = end if k == n - 1 and end is not None else f.add_state()
    f.add_arc(s, pynini.Arc(i[k] if k < len(i) else 0, o[k] if k < len(o) else 0,
                            cost if k == 0 else 0, t))
    s = t
  return s


def transducer(rule, mode):
  f = pynini.Fst()
  if 'arcs' in rule:
    for _ in range(rule['n']):
      f.add_state()
    f.set_start(0)
    for a, i, o, c, b in rule['arcs']:
      if isinstance(i, int):
        f.add_arc(a, pynini.Arc(PAREN + i, PAREN + i, c, b))
      else:
        chain(f, a, labels(i, mode), labels(o, mode), c, b)
    for s in rule['finals']:
      f.set_final(s)
    return f
  s = f.add_state()
  f.set_start(s)
  e = f.add_state()
  for i, o, c in rule['pairs']:
    chain(f, s, labels(i, mode), labels(o, mode), c, s if rule['star'] else e)
  if rule['star']:
    f.add_arc(s, pynini.Arc(0, 0, 0, e))
  f.set_final(e)
  if rule.get('tail'):
    chain(f, e, [], labels(rule['tail'][0], mode), rule['tail'][1], e)
  return f


def parens(rule):
  f = pynini.Fst()
  f.add_states(2)
  f.set_start(0)
  f.set_final(1)
  for k in range(rule['parens']):
    f.add_arc(0, pynini.Arc(PAREN + 2 * k, PAREN + 2 * k + 1, 0, 1))
  return f


def archive(path, rules, mode, gen=False, table=False):
  """Writes the archive; returns the definitions of the rules."""
  fsts, defs = {}, []
  for k, r in enumerate(rules):
    name = 'R%d' % k
    fsts[name] = transducer(r, mode)
    if 'arcs' in r:
      fsts['P%d' % k] = parens(r)
      name += r['sep'] + 'P%d' % k
    defs.append(name)
  if table:
    t = pynini.SymbolTable('**Byte symbols' if mode != 'utf8' else '**UTF8 symbols')
    t.add_symbol('<epsilon>', 0)
    for c in range(1, 256):
      t.add_symbol('x%d' % c, c)
    for f in fsts.values():
      f.set_input_symbols(t)
      f.set_output_symbols(t)
  if gen:
    t = pynini.SymbolTable()
    t.add_symbol('<epsilon>', 0)
    f = pynini.Fst()
    f.set_start(f.add_state())
    f.set_final(0)
    for c in SYMS:
      t.add_symbol(NAME[c], LABEL[c])
    f.set_input_symbols(t)
    f.set_output_symbols(t)
    fsts['*StringFstSymbolTable'] = f
  with pynini.Far(path, 'w', far_type='sttable') as far:
    for k in sorted(fsts):
      far[k] = fsts[k]
  return defs


# The model: relations as dictionaries from outputs to least costs.

def put(d, k, c):
  if c < d.get(k, 1e9):
    d[k] = c


def relation(rule, s):
  if 'arcs' in rule:
    return pushdown(rule, s)
  out = {}
  if not rule['star']:
    for i, o, c in rule['pairs']:
      if i == s:
        put(out, o, c)
    return out
  at = [{} for _ in range(len(s) + 1)]
  at[0][''] = 0
  for k in range(len(s)):
    for i, o, c in rule['pairs']:
      if s.startswith(i, k):
        for x, cx in at[k].items():
          put(at[k + len(i)], x + o, c + cx)
    if len(at[k]) > 300:
      raise Excluded()
  return at[len(s)]


def pushdown(rule, s):
  """By search over configurations with a stack."""
  start = (0, 0, (), '')
  best, out, n = {start: 0}, {}, 0
  heap = [(0, start)]
  while heap:
    c, x = heapq.heappop(heap)
    if c > best[x]:
      continue
    n += 1
    if n > 8000:
      raise Excluded()
    q, k, stack, o = x
    if q in rule['finals'] and k == len(s) and not stack:
      put(out, o, c)
    for a, i, w, cost, b in rule['arcs']:
      if a != q:
        continue
      st2, k2, o2 = stack, k, o
      if isinstance(i, int):
        if i % 2 == 0:
          st2 = stack + (i // 2,)
        elif stack and stack[-1] == i // 2:
          st2 = stack[:-1]
        else:
          continue
      else:
        if not s.startswith(i, k):
          continue
        k2, o2 = k + len(i), o + w
      y = (b, k2, st2, o2)
      if c + cost < best.get(y, 1e9):
        best[y] = c + cost
        heapq.heappush(heap, (c + cost, y))
  return out


def composed(rules, s):
  """(the outputs without the last rule's tail, per rule)"""
  out, steps = {s: 0}, []
  for r in rules:
    new = {}
    for x, c in out.items():
      for y, d in relation(r, x).items():
        put(new, y, c + d)
    out = new
    steps.append(out)
    if len(out) > 400:
      raise Excluded()
  return steps


def unfold(out, tail, n):
  """The outputs, with those that may be among the n cheapest of an endless relation."""
  if not tail:
    return out
  new = {}
  for x, c in out.items():
    for k in range(n + 1):
      put(new, x + k * tail[0], c + k * tail[1])
  return new


def cost_in(out, tail, s):
  """The cost of a string, or None."""
  best = out.get(s)
  if tail:
    x, c = s, 0
    while x.endswith(tail[0]):
      x, c = x[:-len(tail[0])], c + tail[1]
      if x in out and (best is None or out[x] + c < best):
        best = out[x] + c
  return best


# Checking answers.

def items_of(r):
  out, i = [], 0
  while i < len(r):
    n = int(r[i + 2])
    out.append((r[i].decode(), r[i + 1] == b'1', r[i + 3:i + 3 + n]))
    i += 3 + n
  return out


class Judge:
  """What the entry points should answer for one input and relation."""

  def __init__(self, out, tail, n, mode, case):
    self.out, self.tail, self.n, self.mode, self.case = out, tail, n, mode, case
    self.low = min(out.values()) if out else None
    self.best = {x for x in out if out[x] == self.low}
    self.many = unfold(out, tail, n)
    self.back = {}
    for x in self.many:
      for f in ('string', 'debug', 'labels'):
        self.back[f, self.show(f, x)] = x

  def show(self, form, x):
    if form == 'debug':
      return named(x, self.mode) if self.mode == 'byte' else printed(x, self.mode)
    if form == 'labels':
      return ','.join(map(str, labels(x, self.mode))).encode()
    return printed(x, self.mode)

  def bad(self, name, got):
    fail(name, answer=got, want=dict(sorted(self.out.items())[:12]), case=self.case)

  def __call__(self, name, ok, got):
    what, form = (name.split('.') + [''])[1:3]
    if what == 'match':
      x = got[0].decode()
      if ok != (cost_in(self.out, self.tail, x) is not None):
        self.bad(name, (ok, x))
      return
    want = bool(self.out)
    if what == 'one':
      want = len(self.best) == 1
    elif what == 'all':
      want = want and not self.tail
    if what != 'lattice':
      if ok != want:
        self.bad(name, (ok, got))
      if not ok:
        return
    second = None
    if form == 'weight':
      costs = {}
      for a, b in zip(got[::2], got[1::2]):
        costs[a] = float(b)
      if len(costs) * 2 != len(got):
        self.bad(name + ' repeats', got)
      got = got[::2]
    elif form == 'fst' or what == 'lattice':
      return self.lattice(name, what, ok, got)
    elif form == 'debug' and what in ('top', 'one'):
      got, second = got[:1], got[1:]
    f = 'labels' if form == 'labels' else 'debug' if form == 'debug2' else 'string'
    xs = [self.back.get((f, g)) for g in got]
    if None in xs:
      self.bad(name, got)
    if form == 'weight' and any(self.many[x] != costs[g] for x, g in zip(xs, got)):
      self.bad(name + ': cost', costs)
    if second and second != [self.show('debug', xs[0])]:
      self.bad(name, second)
    if len(set(xs)) != len(xs):
      self.bad(name + ' repeats', got)
    self.chosen(name, what, xs)

  def chosen(self, name, what, xs):
    s = set(xs)
    if what == 'top' or what == 'one':
      good = len(xs) == 1 and xs[0] in self.best
    elif what == 'tops':
      good = s == self.best
    elif what == 'all':
      good = s == set(self.out)
    else:  # n
      costs = sorted(self.many.values())[:self.n]
      good = sorted(self.many[x] for x in xs) == costs
    if not good:
      self.bad(name, xs)

  def lattice(self, name, what, ok, got):
    if what == 'lattice' and name[0] in 'gt':
      if not ok:  # The rules are there: an empty lattice is an answer.
        self.bad(name, (ok, got))
    elif what in ('top', 'tops', 'n', 'lattice', 'all') and ok != bool(self.out):
      self.bad(name, (ok, got))
    elif what == 'one' and ok != (len(self.best) == 1):
      self.bad(name, (ok, got))
    if not ok:
      return
    if got == [b'endless']:
      if not self.tail or what not in ('lattice', 'all'):
        self.bad(name, got)
      return
    costs = {}
    for a, b in zip(got[::2], got[1::2]):
      put(costs, a, float(b))
    full = len(got) < 2000
    xs = []
    for g, c in costs.items():
      x = self.back.get(('string', g))
      if x is None or (c != self.many[x] if full else c < self.many[x]):
        self.bad(name + ': cost', (g, c))
      xs.append(x)
    if what == 'lattice':
      if full and not self.tail and set(xs) != set(self.out):
        self.bad(name, costs)
    else:
      self.chosen(name, what, xs)


ALPHABET = 'abbcé'
COSTS = st.sampled_from([0, 0, 0.25, 0.5, 0.5, 1, 2.75])


@st.composite
def pairs_rule(draw, first, last, syms):
  star = draw(st.booleans())
  text = lambda lo, hi, a: st.text(st.sampled_from(a), min_size=lo, max_size=hi)
  src = ALPHABET[:4] if first else ALPHABET + syms
  pairs = draw(st.lists(st.tuples(
      text(1 if star else 0, 2, src), text(0, 2, ALPHABET + syms), COSTS), min_size=1, max_size=6))
  if not first and draw(st.booleans()):
    star = True
    pairs = [p for p in pairs if p[0]] + [[c, c, 0] for c in 'abcé' + syms]
  if not star and len(pairs) > 1 and draw(st.booleans()):
    pairs = [(pairs[0][0], o, c) for _, o, c in pairs]
  r = {'star': star, 'pairs': [list(p) for p in pairs]}
  if last and draw(st.integers(0, 5)) == 0:
    r['tail'] = [draw(text(1, 2, ALPHABET[:3])), draw(st.sampled_from([0.25, 1]))]
  return r


@st.composite
def pdt_rule(draw, syms=''):
  n = draw(st.integers(2, 4))
  np = draw(st.integers(1, 3))
  # Arcs that consume nothing go forward, so that stacks stay small.
  letter = st.tuples(st.integers(0, n - 1), st.sampled_from('ab'), st.text(
      st.sampled_from('abc' + syms), max_size=1), COSTS, st.integers(0, n - 1))
  ahead = st.integers(0, n - 2).flatmap(lambda a: st.tuples(
      st.just(a), st.one_of(st.integers(0, 2 * np - 1), st.integers(0, 2 * np - 1), st.just('')),
      st.just(''), COSTS, st.integers(a + 1, n - 1)))
  arcs = draw(st.lists(st.one_of(letter, ahead), min_size=3, max_size=9))
  if n > 2 and draw(st.booleans()):
    # A nested language: open with a, close with b.
    k = draw(st.integers(0, np - 1))
    arcs = arcs[:4] + [(0, 'a', 'c', 0.25, 1), (1, 2 * k, '', 0, n - 1)]
    arcs += [(n - 1, 'b', '', 0, 0), (0, 2 * k + 1, '', 0, n - 1)]
  r = {'n': n, 'parens': np, 'arcs': [list(a) for a in arcs],
       'finals': sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=2))),
       'sep': draw(st.sampled_from('$:'))}
  return r


@st.composite
def rules_case(draw, pdt=False, modes=('byte', 'utf8')):
  mode = draw(st.sampled_from(modes))
  gen = draw(st.booleans())
  syms = SYMS if gen else ''
  n = draw(st.integers(1, 3))
  rules = [draw(pairs_rule(k == 0, k == n - 1, syms)) for k in range(n)]
  if pdt:
    k = draw(st.integers(0, n - 1))
    rules[k] = draw(pdt_rule(syms))
    if k < n - 1 and draw(st.booleans()):
      rules = rules[:k + 1]
    s = draw(st.text(st.sampled_from('ab'), max_size=4))
    if k == 0 and draw(st.booleans()):
      s = draw(st.sampled_from(accepted(rules[0])))
  else:
    a = st.sampled_from([p[0] for p in rules[0]['pairs']])
    s = draw(st.one_of(a, a if not rules[0]['star'] else st.lists(a, max_size=3).map(''.join),
                       st.text(st.sampled_from(ALPHABET), max_size=5)))
  return {'mode': mode, 'gen': gen, 'rules': rules, 'input': s, 'n': draw(st.integers(1, 6)),
          'other': draw(st.lists(st.text(st.sampled_from(ALPHABET), max_size=3), min_size=1, max_size=2)),
          'table': draw(st.integers(0, 3)) == 0}


def accepted(rule):
  """Short inputs that a pushdown rule accepts."""
  out = []
  for n in range(4):
    for k in range(2 ** n):
      s = ''.join('ab'[k >> j & 1] for j in range(n))
      try:
        if pushdown(rule, s):
          out.append(s)
      except Excluded:
        pass
  return out or ['']


def run_rules(ctx, p, pdt=False):
  far = os.path.join(ctx.scratch, 'r.far')
  if os.environ.get('CC_EXTRA') and ctx.sub == 'asan_rules0':
    def compiles(case):
      fail('an entry point does not compile', error=os.environ['CC_EXTRA'])
    ctx.enum('compiles', [['TopRewrites(input, n, repeated field)']], compiles)

  def one(case):
    mode, rules, s, n = case['mode'], case['rules'], case['input'], case['n']
    steps = composed(rules, s)
    out, tail = steps[-1], rules[-1].get('tail')
    first = steps[0]
    tail0 = rules[0].get('tail')
    defs = archive(far, rules, mode, case['gen'])
    many = sorted(x for x in unfold(out, tail, 2) if not set(x) & set(SYMS))
    cand = case['other'] + many[:2] + many[-2:]
    r = p.ok('all', far, mode, ','.join(defs), s, str(n), '0' if tail else '1', *cand)
    j = Judge(out, tail, n, mode, case)
    j0 = Judge(first, tail0, n, mode, case)
    has = {'c.load': 1, 'c.rules': 1, 'c.again': 1, 'm.load': 1, 'g.load': 1, 't.rules': 1,
           'm.get': 1, 'g.set': 1, 'm.set': 1, 'm.getno': 0, 'c.norules': 0, 'c.badrule': 0,
           'm.badrule': 0, 'g.badrule': 0, 't.badrule': 0, 'g.setno': 0, 'm.setno': 0,
           'g.gone': 0, 'm.gone': 0}
    seen = set()
    for name, ok, got in items_of(r):
      seen.add(name)
      if name in has:
        eq(ok, bool(has[name]), name, case=case)
      elif name.endswith('.identity'):
        eq((ok, got), (True, [s.encode()]), name, case=case)
      elif name[0] in 'ct':
        j(name, ok, got)
      else:
        j0(name, ok, got)
    if len(seen) < (45 if mode == 'byte' else 35):
      raise RuntimeError('too few answers: %s' % sorted(seen))
    ctx.label(('rejected' if not out else 'endless' if tail else 'one' if len(out) == 1 else
               'tied' if len(j.best) > 1 else 'several'))
    if pdt and out:
      ctx.label('pushdown')
    return len(out) != 1 or len(rules) > 1

  ctx.check('pdt' if pdt else 'rules', rules_case(pdt), one, ctx.n(450, 12000))
  if not pdt:
    def invalid(case):
      rules = [{'star': True, 'pairs': [[c, c, 0] for c in 'abé']}]
      defs = archive(far, rules, 'utf8')
      for name, ok, got in items_of(p.ok('all', far, 'utf8', ','.join(defs), bytes(case), '2', '1', 'ab')):
        if name.split('.')[1] in ('top', 'one', 'tops', 'n', 'all', 'match') and name[0] in 'cm' and ok:
          fail('%s of text that is not UTF-8' % name, answer=got, input=case)
      return True
    ctx.enum('invalid', [[255], [97, 0xc3], [0xc3], [0xed, 0xa0, 0x80], [97, 0x80]], invalid)


def run_pdt(ctx, p):
  run_rules(ctx, p, True)


TOKENS = 'abcé' + 'xy'


def number(c):
  return '%g' % c


def run_tester(ctx, p):
  far = os.path.join(ctx.scratch, 'r.far')
  table = os.path.join(ctx.scratch, 'syms.txt')
  with open(table, 'w') as f:
    f.write('<eps> 0\n' + ''.join('t_%s %d\n' % (c, i + 1) for i, c in enumerate(TOKENS)))

  def one(case):
    kind, rules = case['mode'], case['rules']
    mode = table if kind == 'symbol' else kind
    tails = [r.get('tail') for r in rules]
    noutput, details, prepend = case['n'], case['details'], case['prepend']
    defs = archive(far, rules, mode, case['gen'], case['table'] and kind != 'symbol')
    inputs = [case['input']] + case['other']
    enc = [x if kind != 'symbol' else ' '.join('t_' + c for c in x) for x in inputs]
    got = p.ok('tester', far, mode, ','.join(defs), str(noutput), '1' if details else '0',
               '1' if prepend else '0', *enc)
    for s, e, g in zip(inputs, enc, got):
      steps = composed(rules, s)
      if not steps[-1]:
        eq(g, b'Rewrite failed for "' + e.encode() + b'"', 'answer', case=case, input=s)
        continue
      lines = g.split(b'\n')
      eq(lines.pop(), b'', 'the answer ends with a line', case=case)
      if details and len(rules) > 1:
        for k, step in enumerate(steps):
          many = unfold(step, tails[k], noutput)
          head = b'output of rule[R%d] is: ' % k
          part = lines[:min(noutput, len(many))]
          lines = lines[len(part):]
          if not all(x.startswith(head) for x in part):
            fail('details', got=g, case=case)
          choose(case, [(x[len(head):], None) for x in part], many, noutput, kind)
      many = unfold(steps[-1], tails[-1], noutput)
      res = []
      for x in lines:
        if prepend:
          if not x.startswith(b'Output string: '):
            fail('prefix', got=g, case=case)
          x = x[len(b'Output string: '):]
        cost = 0.0
        if noutput != 1:
          y, sep, z = x.rpartition(b' <cost=')
          if sep:
            x, cost = y, float(z[:-1])
            if not cost or not z.endswith(b'>'):
              fail('cost', got=g, case=case)
        res.append((x, cost if noutput != 1 else None))
      choose(case, res, many, noutput, kind)
    return noutput > 1 or len(rules) > 1

  def choose(case, res, many, n, kind):
    back = {named(x, kind): x for x in many}
    xs = [back.get(a) for a, _ in res]
    if None in xs or len(set(xs)) != len(xs) or sorted(many[x] for x in xs) != sorted(
        many.values())[:n]:
      fail('outputs', got=res, want=many, case=case)
    for x, (_, c) in zip(xs, res):
      if c is not None and c != many[x]:
        fail('cost', got=res, want=many, case=case)

  s = st.tuples(rules_case(modes=('byte', 'utf8', 'symbol')), rules_case(True), st.booleans(),
                st.booleans(), st.booleans()).map(
                    lambda a: dict(a[a[2]], details=a[3], prepend=a[4]))

  ctx.check('tester', s, one, ctx.n(450, 12000))

  def unparsed(case):
    kind, s = case
    mode = table if kind == 'symbol' else kind
    defs = archive(far, [{'star': True, 'pairs': [['a', 'a', 0]]}], mode)
    got = p.ok('tester', far, mode, ','.join(defs), '1', '0', '1', bytes(s))
    eq(got, [b'Unable to parse input string.'], 'answer', case=case)
    return True
  ctx.enum('unparsed', [['utf8', [0xff]], ['utf8', [97, 0xc3]], ['symbol', [97]],
                        ['symbol', list(b't_a t_z')], ['symbol', list(b't_b a')]], unparsed)


# Paths.

@st.composite
def machine(draw):
  n = draw(st.integers(1, 5))
  arc = st.tuples(st.integers(0, n - 1), st.integers(0, 3), st.integers(0, 3),
                  st.sampled_from([0, 0.5, 1.25]), st.integers(0, n - 1))
  arcs = draw(st.lists(arc, max_size=8))
  if draw(st.integers(0, 5)):
    arcs = [a for a in arcs if a[0] < a[4]]
    arcs += [(k, 1 + k % 3, 2, 0.5, k + 1) for k in range(n - 1) if draw(st.booleans())]
  finals = draw(st.dictionaries(st.integers(0, n - 1), st.sampled_from([0, 0.5, 2]), max_size=3))
  if draw(st.integers(0, 7)):
    finals[n - 1] = 0.25
  # Keep what lies on a path from the start to an end.
  fwd, bwd = {0}, set(finals)
  for _ in range(n):
    fwd |= {b for a, _, _, _, b in arcs if a in fwd}
    bwd |= {a for a, _, _, _, b in arcs if b in bwd}
  keep = sorted(fwd & bwd)
  num = {s: i for i, s in enumerate(keep)}
  if 0 not in num:
    return [0, [], [], draw(st.integers(0, 5))]
  return [len(keep), [[num[a], i, o, c, num[b]] for a, i, o, c, b in arcs if a in num and b in num],
          sorted([num[s], c] for s, c in finals.items() if s in num), draw(st.integers(0, 5))]


def run_paths(ctx, p):
  def one(case):
    n, arcs, finals, reset = case
    want, cyclic = [], False
    fin = dict(finals)

    def go(s, i, o, c, seen):
      nonlocal cyclic
      if s in seen:
        cyclic = True
        return
      if s in fin:
        want.append((i, o, c + fin[s]))
      for a, x, y, w, b in arcs:
        if a == s and not cyclic and len(want) < 1500:
          go(b, i + [x], o + [y], c + w, seen | {s})
    if n:
      go(0, [], [], 0, frozenset())
    got = p.ok('paths', str(n), str(reset), *(
        ['%d %d %d %g %d' % tuple(a) for a in arcs] + ['%d %g' % tuple(f) for f in finals]))
    eq(got[0], b'1' if cyclic else b'0', 'refuses a cyclic transducer', case=case)
    if cyclic:
      ctx.label('cyclic')
      return True
    show = lambda ls: ''.join('%d,' % x for x in ls)
    eq(sorted(x.decode() for x in got[1:]),
       sorted('%s|%s|%s' % (show(i), show(o), '%g' % c) for i, o, c in want), 'paths', case=case)
    if reset:
      ctx.label('reset')
    return len(want) > 1
  ctx.check('paths', machine(), one, ctx.n(3000, 60000))


def run_assign(ctx, p):
  label = st.integers(0, 9)
  arc = st.tuples(st.integers(0, 2), label, label, st.integers(0, 2))
  pairs = st.permutations(range(1, 10)).map(lambda a: [(a[k], a[k + 1]) for k in range(0, 6, 2)])

  def one(case):
    ps, levels = case
    got = p.call('assign', '3', *['%d %d %d %d' % tuple(a) for a in ps],
                 *(['-'] + ['%d %d %d %d' % tuple(a) for a in levels] if levels is not None else []))
    full = sorted(((a, i, o) for k, (a, i, o, _) in enumerate(ps) if i and o), key=lambda x: x[0])
    full = [x[1:] for x in full]
    used = [x for io in full for x in io]
    good = True
    if len(set(used)) != len(used):
      # The same label twice, as one parenthesis or another: not checked further.
      ctx.label('reused')
      good = all(i != o for i, o in full)
      if not good and got[0] == 'ok':
        fail('accepted a pair of equal parentheses', case=case)
      return not good
    m = {}
    for a in range(3):
      for s, i, o, _ in levels or []:
        if s == a and i and o:
          m[i] = o
    if levels is not None and any(i not in m for i, _ in full):
      ctx.label('unassigned')
      if got[0] == 'ok':
        fail('accepted a parenthesis without a stack', case=case)
      return True
    want = ['%d %d' % x for x in full] + ([str(m[i]) for i, _ in full] if levels is not None else [])
    eq(got, ('ok', [x.encode() for x in want]), 'parentheses', case=case)
    return len(full) > 1

  def some(a):
    prs, where, extra, levels, some_levels = a
    ps = [[s, i, o, (s + 1) % 3] for (i, o), s in zip(prs, where)]
    for e in extra:
      if not (e[1] and e[2]):
        ps.append(list(e))
    ls = [[s, i, 1 + l, 2] for (i, _), s, l in zip(prs, where[::-1], levels)]
    return [ps, None if some_levels == 0 else ls[:2] if some_levels == 1 else ls]

  ctx.check('assign', st.one_of(
      st.tuples(pairs, st.lists(st.integers(0, 2), min_size=3, max_size=3), st.lists(arc, max_size=3),
                st.lists(st.integers(0, 2), min_size=3, max_size=3), st.integers(0, 4)).map(some),
      st.tuples(st.lists(arc.map(list), max_size=3), st.none()).map(list)), one, ctx.n(1500, 20000))


def run_loads(ctx, p):
  d = ctx.scratch
  good, short, junk = (os.path.join(d, x) for x in ('good.far', 'short.far', 'junk.far'))
  archive(good, [{'star': False, 'pairs': [['a', 'b', 0]]}], 'byte')
  with open(good, 'rb') as f, open(short, 'wb') as g:
    g.write(f.read()[:-9])
  with open(junk, 'wb') as f:
    f.write(b'not an archive')

  def one(case):
    got = p.ok('loads', *[os.path.join(d, x) for x in case])
    for k, x in enumerate(case):
      g, m, c = (y == b'1' for y in got[3 * k:3 * k + 3])
      if x == 'good.far':
        want = (True, True, True)
      else:
        want = (False, False, False)
      eq((g, m, c), want, 'loading', file=x)
    return True
  ctx.check('loads', st.lists(st.sampled_from(['good.far', 'short.far', 'junk.far', 'none.far', 'no/x.far']),
                              min_size=1, max_size=4), one, ctx.n(60, 600))

  names = os.path.join(d, 'names.far')
  with pynini.Far(names, 'w', far_type='sttable') as f:
    for name in ('A', 'P', 'R'):
      f.add(name, pynini.accep('x'))

  def defs(case):
    text = [','.join(x['sep'].join(x['parts']) for x in l) for l in case]
    got = p.ok('defs', names, *text)
    k = 0
    for l, t in zip(case, text):
      # Of each definition: the rule, and what is neither missing nor empty.
      ok = b'1' if all(x['parts'][0] in known and all(y in known for y in x['parts'] if y)
                       for x in l) else b'0'
      want = [ok, ok, ok]
      for x in l:
        want += [y.encode() for y in (x['parts'] + ['', ''])[:3]]
      eq(got[k:k + len(want) + 1], want + [ok], 'definitions', of=t)
      k += len(want) + 1
    return True
  known = {'A', 'P', 'R'}
  part = st.sampled_from(['P', 'A', 'R', 'P', 'A', 'R', '', 'Q', 'RP'])
  one_def = st.fixed_dictionaries({'sep': st.sampled_from('$:'), 'parts': st.lists(part, min_size=1, max_size=3)})
  ctx.check('defs', st.lists(st.lists(one_def, min_size=1, max_size=3), min_size=1, max_size=4), defs,
            ctx.n(300, 3000))

  def table(case):
    kind, labels_ = case
    got = p.ok('table', kind, *map(str, labels_))
    for l, g in zip(labels_, got[1:]):
      eq(g, symbol(kind, l), 'symbol', table=kind, label=l)
    return True
  for kind, top in (('byte', 258), ('utf8', 0x10010)):
    ctx.enum('table-' + kind, [[kind, list(range(a, min(a + 512, top)))] for a in range(0, top, 512)], table)


SPACES = set(range(1, 33)) | set(range(127, 134)) | set(range(134, 161)) | {
    5760, 6158, *range(8192, 8203), 8232, 8233, 8239, 8287, 12288}


def symbol(kind, l):
  if l == 0:
    return b'<epsilon>'
  if kind == 'byte':
    if l > 255:
      return b''
    return bytes([l]) if 32 < l < 127 else b'0x%02x' % l
  if l >= 0x10000:
    return b''
  return b'0x%04x' % l if l in SPACES else chr(l).encode('utf8', 'surrogatepass')


def run_symbols(ctx, p):
  def one(case):
    seed, n = case
    got = p.ok('symbols', str(seed), str(n))
    for k in range(0, len(got), 4):
      eq(got[k:k + 4], [b'same', b'A0xff**Byte symbols', b'same', 'क0x0020**UTF8 symbols'.encode()],
         'a thread\'s tables', case=case)
    return n > 1
  ctx.check('symbols', st.tuples(st.integers(1, 1 << 30), st.integers(1, 4)).map(list), one, ctx.n(6, 100))
