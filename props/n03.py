"""N03: expressions obey their algebra."""
import itertools

from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/natural_translit/utils:expression']
RULE = ('Random histories that build a pool of expressions over four symbols (atoms, empty '
        'sequences, concatenations, alternations, optional and repeated parts, copies, additions '
        'to existing expressions, alignments and rules) next to a model that keeps the documented '
        'tree and the list of symbol sequences each denotes. After every operation each pool '
        'member must still denote what it did; at the end, acceptance, equivalence, containment, '
        'prefix and suffix tests of every pair are compared with the same relations on the '
        'sequence lists. Non-trivial: an expression with three sequences or more.')
NAMES = 'abcd'


def subs(tier):
  return ['history1', 'history2', 'history3', 'small', 'alignment']


class Node:
  """Model expression: kind 'atom' | 'ctrl' | 'cat' | 'or' | 'any'."""

  def __init__(self, kind, items=(), name=''):
    self.kind, self.items, self.name = kind, list(items), name

  def copy(self):
    return self if self.kind in ('atom', 'ctrl', 'any') else Node(self.kind, self.items)

  def is_any(self):
    return self.kind == 'any' or (self.kind in ('cat', 'or') and len(self.items) == 1
                                  and self.items[0].is_any())

  def states(self):
    return 1 if self.kind in ('atom', 'ctrl') else sum(i.states() for i in self.items)

  def seqs(self):
    """Symbol sequences in order; None inside: nothing can match."""
    if self.kind == 'atom':
      return [(self.name,)]
    if self.kind == 'ctrl':
      return [()] if self.name == 'eps' else [None]
    if self.kind == 'any':
      return []
    if self.kind == 'or':
      return [s for i in self.items for s in i.seqs()] if self.items else [None]
    out = [()]
    for i in self.items:
      out = [None if x is None or y is None else x + y for x in out for y in i.seqs()]
    return out

  def text(self):
    if self.kind == 'atom':
      return self.name
    if self.kind == 'ctrl':
      return {'eps': '\u200b\u2130\u200b', 'nor': '\u200b\u25ce\u200b'}[self.name]
    if self.kind == 'any':
      return '\u200b\U0001f753\u22c6\u200b'
    parts = [i.text() for i in self.items]
    if self.kind == 'cat':
      return '(' + ' '.join(parts) + ')' if parts else '\u200b\u2130\u200b'
    if len(parts) == 1:
      parts.append('\u200b\u25ce\u200b')
    return '(' + ' | '.join(parts) + ')' if parts else '\u200b\u25ce\u200b'

  # Construction, as documented for each kind.
  def add(self, *items):
    for i in items:
      if self.kind == 'cat':
        if i.is_any():
          self.items.append(i)
        else:
          self._put(i)
      else:
        if any(x.kind == 'any' for x in self.items):
          break
        if i.is_any():
          self.items = [i]
          break
        if accepts(self, i):
          if accepts(i, self) and i.states() < self.states():
            self.items = []
            self.add(i)
        elif accepts(i, self):
          self.items = []
          self.add(i)
        else:
          self._put(i)

  def _put(self, i):
    if i.kind == self.kind:
      self.add(*list(i.items))
    elif i.kind == 'atom':
      self.items.append(i)
    elif i.kind == 'ctrl':
      pass
    elif len(i.items) == 1:
      self.add(i.items[0])
    else:
      self.items.append(i.copy())


def make(kind, *items):
  n = Node(kind)
  n.add(*items)
  return n


def accepts(x, y):
  if x.is_any() or y.is_any():
    return True
  xs, ys = x.seqs(), y.seqs()
  return bool(xs) and all(s is not None and s in xs for s in ys)


def contains(x, y, head, tail):
  if x.is_any() or y.is_any():
    return True      # nothing matches nothing: not asked here
  for s in y.seqs():
    if s == ():
      return True
    if s is None:
      continue
    for t in x.seqs():
      if t is None:
        continue
      n = len(s)
      if head and tail:
        ok = t == s
      elif head:
        ok = t[:n] == s
      elif tail:
        ok = t[-n:] == s
      else:
        ok = any(t[i:i + n] == s for i in range(len(t) - n + 1))
      if ok:
        return True
  return False


class World:

  def __init__(self):
    from nisaba.scripts.natural_translit.utils import expression as e
    from nisaba.scripts.natural_translit.utils import symbol as s
    self.e = e
    self.syms = [s.Symbol(n, n, n, i + 1) for i, n in enumerate(NAMES)]
    self.name_of = {id(x): x.alias for x in self.syms}
    self.nor = s.Symbol.CTRL.nor
    self.eps = s.Symbol.CTRL.eps
    self.pool = [(e.Atomic(x), Node('atom', name=x.alias)) for x in self.syms]
    self.pool += [(x, Node('atom', name=x.alias)) for x in self.syms[:1]]

  def seqs(self, x):
    out = []
    for l in x.symbols():
      l = [y.symbol for y in l]
      if any(y is self.nor for y in l):
        out.append(None)
      elif len(l) == 1 and l[0] is self.eps:
        out.append(())
      else:
        if any(id(y) not in self.name_of for y in l):
          fail('symbol list with something else than the symbols put in', got=[str(y) for y in l])
        out.append(tuple(self.name_of[id(y)] for y in l))
    return out


def check_one(w, x, n, where):
  with sut('symbols, str, state_count'):
    got = w.seqs(x)
    text, states = str(x), x.state_count()
  eq(got, n.seqs(), 'symbol lists ' + where)
  eq(text, n.text(), 'string ' + where)
  eq(states, n.states(), 'state count ' + where)
  if n.kind in ('cat', 'or'):
    eq(len(x), len(n.items), 'length ' + where)
    eq([len(i.symbols()) for i in x], [len(i.seqs()) for i in n.items], 'items ' + where)


def relations(w, x, n, y, m):
  info = dict(x=n.text(), y=m.text())
  with sut('comparing expressions'):
    got = [x.accepts(y), x.is_equivalent(y), y.is_equivalent(x)]
    want = [accepts(n, m)] + [accepts(n, m) and accepts(m, n) and n.is_any() == m.is_any()] * 2
    eq(got, want, 'accepts, is_equivalent (both ways)', **info)
    for head, tail in itertools.product((False, True), repeat=2):
      want = contains(n, m, head, tail)
      eq(x.contains(y, match_head=head, match_tail=tail), want, 'contains', head=head, tail=tail, **info)
      eq(y.is_contained(x, match_head=head, match_tail=tail), want, 'is_contained', **info)
    eq(x.matches(y), contains(n, m, True, True), 'matches', **info)
    # Prefix and suffix tests are documented where neither side is optional.
    if None in n.seqs() + m.seqs():
      return
    empty = [() in k.seqs() for k in (n, m)]
    bare = [k.kind == 'cat' and not k.items for k in (n, m)]
    if n.is_any() or m.is_any() or not any(empty):
      want = [contains(n, m, True, False), contains(n, m, False, True)]
    elif all(bare):
      want = [True, True]
    elif any(bare) and not all(empty):
      want = [False, False]
    else:
      return
    eq([x.head_matches(y), x.tail_matches(y)], want, 'head_matches, tail_matches', **info)
    eq([y.is_prefix(x), y.is_suffix(x)], want, 'is_prefix, is_suffix', **info)


OPS = ['cat', 'cat', 'cat', 'or', 'or', 'or', 'plus', 'bar', 'repeat', 'ques', 'copy', 'add', 'add',
       'empty', 'any']


def grow(w, ops, limit=24):
  e = w.e
  for name, ids, flag in ops:
    picked = [w.pool[i % len(w.pool)] for i in ids] or [w.pool[0]]
    # An alternative that matches nothing, or anything, is only used at the top.
    safe = [p for p in picked if None not in p[1].seqs() and not p[1].is_any()] or [w.pool[0]]
    if sum(len(p[1].seqs()) for p in safe) > 8 or max(
        max(map(len, p[1].seqs())) for p in safe) > 8:
      safe = safe[:1]
      if len(safe[0][1].seqs()) > 8 or len(safe[0][1].seqs()[0]) > 8:
        safe = [w.pool[0]]
    xs, ns = [p[0] for p in safe], [p[1] for p in safe]
    with sut(name):
      if name == 'cat':
        new = e.Cat(*xs), make('cat', *ns)
      elif name == 'or':
        new = e.Or(*xs), make('or', *ns)
      elif name in ('plus', 'bar', 'repeat', 'ques', 'copy') and not isinstance(xs[0], e.Expression):
        continue       # plain symbols have no such methods
      elif name == 'plus':
        new = xs[0] + xs[-1], make('cat', ns[0], ns[-1])
      elif name == 'bar':
        new = xs[0] | xs[-1], make('or', ns[0], ns[-1])
      elif name == 'repeat':
        k = len(ids) % 4
        new = xs[0].repeat(k), make('cat', *[ns[0]] * k)
      elif name == 'ques':
        both = (ns[0], Node('cat')) if flag else (Node('cat'), ns[0])
        new = xs[0].ques(flag), make('or', *both)
      elif name == 'copy':
        new = xs[0].copy(), ns[0].copy()
        if ns[0].kind in ('cat', 'or') and new[0] is xs[0]:
          fail('copy returned the expression itself')
      elif name == 'empty':
        new = (e.Or(), Node('or')) if flag else (e.Cat(), Node('cat'))
      elif name == 'any':
        new = e.Expression.ANY, Node('any')
      else:
        x, n = picked[0]
        if n.kind not in ('cat', 'or') or n.is_any():
          continue
        if n.kind == 'cat' and None in n.seqs():
          continue
        if len(x.add(*xs)) is None:
          continue
        n.add(*ns)
        new = None
    if new is not None:
      if len(w.pool) < limit:
        w.pool.append(new)
      else:
        check_one(w, *new, 'of the result of ' + name)
    for k, (x, n) in enumerate(w.pool):
      if len(n.seqs()) <= 64:
        check_one(w, x, n, 'of expression %d after %s' % (k, name))


def run(ctx):
  if ctx.sub == 'alignment':
    alignment(ctx)
    return
  if ctx.sub == 'small':
    small(ctx)
    return

  def one(ops):
    w = World()
    grow(w, ops)
    some = w.pool[-7:] + w.pool[:1]
    for x, n in some:
      for y, m in some:
        if len(n.seqs()) <= 40 and len(m.seqs()) <= 40:
          relations(w, x, n, y, m)
    return max(len(n.seqs()) for _, n in w.pool) > 2
  op = st.tuples(st.sampled_from(OPS), st.lists(st.integers(0, 60), max_size=3), st.booleans()).map(list)
  ctx.check('history', st.lists(op, min_size=1, max_size=14), one, ctx.n(1200, 15000))


def small(ctx):
  """Every pair of trees of two levels over two symbols."""
  w = World()
  e = w.e
  a, b = w.pool[0], w.pool[1]

  def both(kind, *parts):
    return ({'cat': e.Cat, 'or': e.Or}[kind](*[p[0] for p in parts]), make(kind, *[p[1] for p in parts]))
  level0 = [a, b, (e.Cat(), Node('cat'))]
  level1 = [both(k, *ps) for k in ('cat', 'or') for n in (1, 2) for ps in itertools.product(level0, repeat=n)]
  level2 = [both(k, p, q) for k in ('cat', 'or') for p in level1 for q in level0 + level1[::3]]
  trees = level0 + level1 + level2 + [(e.Or(), Node('or')), (e.Expression.ANY, Node('any'))]
  ctx.enum('trees', range(len(trees)), lambda i: check_one(w, *trees[i], 'of a small tree') or True)

  def one(case):
    i, j = case
    relations(w, *trees[i], *trees[j])
    return len(trees[i][1].seqs()) > 1
  step = 1 if ctx.thorough else 5
  ctx.enum('pairs', ([i, j] for i in range(len(trees)) for j in range((i + ctx.seed) % step, len(trees), step)), one)


def alignment(ctx):
  """Sides, contexts and comparison of alignments and rules."""
  from nisaba.scripts.natural_translit.utils import operation as o
  op = st.tuples(st.sampled_from(OPS), st.lists(st.integers(0, 60), max_size=3), st.booleans()).map(list)

  def one(case):
    ops, ids, flags, kind = case
    w = World()
    e = w.e
    grow(w, ops, 14)
    w.pool.append((e.Expression.ANY, Node('any')))
    picked = [w.pool[i % len(w.pool)] for i in ids]
    picked = [p for p in picked if isinstance(p[0], e.Expression) and None not in p[1].seqs()]
    while len(picked) < 10:
      picked.append(w.pool[1])
    (l, ln), (r, rn), pre, fol = picked[0], picked[1], picked[2:4], picked[4:6]
    with sut('building alignments'):
      simple = l >> r
      ctx1 = pre[0][0] >> pre[1][0]
      ctx2 = fol[0][0] >> fol[1][0]
      common = dict(preceding=ctx1, following=ctx2, from_bos=flags & 1 == 1, to_eos=flags & 2 == 2)
      if flags & 4:
        common.update(priority=3, applied_cost=0.25, source=e.AlignmentSource.LEXICON)
      eps = (e.Atomic.CTRL.eps, Node('ctrl', name='eps'))
      if kind == 0:
        rules = [(e.Alignment.rule('r', simple, **common), (l, ln), (r, rn), 'alignable', 'r')]
      elif kind == 1:
        rules = [(e.Alignment.deletion('r', l, **common), (l, ln), eps, 'deletion', 'r')]
      elif kind == 2:
        rules = [(e.Alignment.insertion('r', r, **common), eps, (r, rn), 'insertion', 'r')]
      else:
        x, y = e.Alignment.interchangeable('r', simple, **common)
        rules = [(x, (l, ln), (r, rn), 'interchangeable', 'r_l2r'),
                 (y, (r, rn), (l, ln), 'interchangeable', 'r_r2l')]
      rules += [(x.copy(), le, ri, oper, alias) for x, le, ri, oper, alias in rules]
    for x, (_, le), (_, ri), oper, alias in rules:
      for side, n, what in ((x.left, le, 'left'), (x.right, ri, 'right'),
                            (x.preceding.left, pre[0][1], 'preceding left'),
                            (x.preceding.right, pre[1][1], 'preceding right'),
                            (x.following.left, fol[0][1], 'following left'),
                            (x.following.right, fol[1][1], 'following right')):
        check_one(w, side, n, what)
      operation = getattr(o.Operation.COMMON, oper)
      eq([x.alias, x.from_bos, x.to_eos, x.operation is operation, x.priority, x.applied_cost, x.source],
         [alias, common['from_bos'], common['to_eos'], True, 3 if flags & 4 else 0,
          0.25 if flags & 4 else float(operation.base_cost),
          e.AlignmentSource.LEXICON if flags & 4 else e.AlignmentSource.NATIVE], 'attributes of a rule')
      eq(x.is_assigned(), True, 'is_assigned')
    eq(simple.is_assigned(), False, 'a simple alignment is not assigned')
    # Relations between alignments hold side by side.
    (ol, oln), (orr, orn) = picked[6:8]
    other = ol >> orr
    info = dict(x='%s:%s' % (ln.text(), rn.text()), y='%s:%s' % (oln.text(), orn.text()))
    with sut('comparing alignments'):
      eq(simple.accepts(other), accepts(ln, oln) and accepts(rn, orn), 'accepts', **info)
      eq(simple.matches(other), contains(ln, oln, True, True) and contains(rn, orn, True, True),
         'matches', **info)
      for h, t in itertools.product((False, True), repeat=2):
        want = contains(ln, oln, h, t) and contains(rn, orn, h, t)
        eq(simple.contains(other, h, t), want, 'contains', **info)
        eq(other.is_contained(simple, h, t), want, 'is_contained', **info)
      eq(simple.contains(l), False, 'an alignment contains no plain expression')
    # A rule applies where its contexts match the surrounding alignment.
    rule = rules[0][0]
    before, after = [(picked[8], picked[9]), (picked[7], picked[6])]
    ns = [k[1] for p in (pre, fol, before, after) for k in p]
    if any(() in n.seqs() for n in ns):
      return True
    def fits(rule_side, given, full, suffix):
      return all(contains(g[1], c[1], True, True) if False else (
          contains(c[1], g[1], True, True) if full else
          contains(g[1], c[1], not suffix, suffix)) for c, g in zip(rule_side, given))
    want = fits(pre, before, rule.from_bos, True) and fits(fol, after, rule.to_eos, False)
    with sut('context_matches'):
      got = rule.context_matches(before[0][0] >> before[1][0], after[0][0] >> after[1][0])
    eq(got, want, 'context_matches', rule=rule.string() if hasattr(rule, 'string') else '')
    return True
  ctx.check('alignment', st.tuples(st.lists(op, max_size=8), st.lists(st.integers(0, 60), min_size=10, max_size=10),
                                   st.integers(0, 7), st.integers(0, 3)).map(list), one, ctx.n(2500, 30000))
