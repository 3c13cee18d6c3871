"""N07: list flattening and typed lookups keep every item in order."""
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/natural_translit/utils:type_op',
           '//nisaba/scripts/natural_translit/utils:fst_list',
           '//nisaba/scripts/natural_translit/utils:inventory',
           '//nisaba/scripts/natural_translit/utils:log_op']
RULE = ('Random nested trees of numbers, strings, lists, tuples, the explicit missing values, things, '
        'iterable things and transducers are put in typed and untyped collections, transducer lists and '
        'inventories and compared with a plain reference flattening; transducer lists are unioned, '
        'concatenated, starred and composed and compared with plain string languages; equality, value '
        'and type helpers and the strings of objects on random pairs. Non-trivial: a nested item, a '
        'refused item, two transducers or more.')

TYPES = ['any', 'int', 'str', 'list', 'int|str', 'int|list', 'thing', 'iterable', 'tuple']


def subs(tier):
  return ['iterable', 'inventory', 'fstlist', 'helpers', 'text']


def tree_strategy():
  leaf = st.one_of(
      st.integers(0, 5).map(lambda k: ['int', k]), st.sampled_from(['', 'a', 'bc', '567']).map(lambda s: ['str', s]),
      st.sampled_from(['MISSING', 'UNSPECIFIED', 'UNASSIGNED']).map(lambda s: ['nothing', s]),
      st.just(['none']), st.floats(0, 1, width=16).map(lambda x: ['float', x]),
      st.sampled_from('pq').map(lambda s: ['thing', s]), st.sampled_from(['x', 'yz']).map(lambda s: ['fst', s]))

  def node(kids):
    return st.tuples(st.sampled_from(['list', 'tuple', 'iter', 'gen']), st.lists(kids, max_size=3)).map(list)
  return st.recursive(leaf, node, max_leaves=8)


class Maker:

  def __init__(self):
    import pynini
    from nisaba.scripts.natural_translit.utils import type_op as ty
    self.pyn, self.ty = pynini, ty
    self.things = {}
    self.types = {'any': None, 'int': int, 'str': str, 'list': list, 'int|str': (int, str),
                  'int|list': (int, list), 'thing': ty.Thing, 'iterable': ty.IterableThing, 'tuple': tuple}

  def make(self, t):
    kind, ty = t[0], self.ty
    if kind in ('int', 'str', 'float'):
      return t[1]
    if kind == 'none':
      return None
    if kind == 'nothing':
      return getattr(ty, t[1])
    if kind == 'thing':
      return self.things.setdefault(t[1], ty.Thing(t[1], value_from=7 if t[1] == 'p' else ty.UNSPECIFIED))
    if kind == 'fst':
      return self.pyn.accep(t[1])
    kids = [self.make(k) for k in t[1]]
    if kind == 'list':
      return kids
    if kind == 'tuple':
      return tuple(kids)
    if kind == 'gen':
      return iter_again(kids)
    return ty.IterableThing(*kids, alias='it')


class iter_again:
  """An iterable that is neither a list nor a tuple."""

  def __init__(self, items):
    self.items = items

  def __iter__(self):
    return iter(self.items)


def kids_of(x, ty):
  if isinstance(x, ty.IterableThing):
    return list(x)
  if isinstance(x, (list, tuple)):
    return list(x)
  if isinstance(x, iter_again):
    return x.items
  return None


def flatten(items, types, ty, own):
  """What a collection of class own holds after adding the items."""
  out = []
  for x in items:
    if types is None:
      ok = not isinstance(x, ty.Nothing) and type(x) is not own
    else:
      ok = isinstance(x, types)
    if ok:
      out.append(x)
    else:
      kids = kids_of(x, ty)
      if kids is not None:
        out.extend(flatten(kids, types, ty, own))
  return out


def same(a, b):
  return len(a) == len(b) and all(x is y or (type(x) is type(y) and isinstance(x, (int, float, str)) and x == y)
                                  for x, y in zip(a, b))


def iterable(ctx):
  m = Maker()
  ty = m.ty

  def one(case):
    typ, groups, probe = case
    types = m.types[typ]
    kw = {} if types is None else {'typed': types}
    with sut('IterableThing'):
      made = [[m.make(t) for t in g] for g in groups]
      x = ty.IterableThing(*made[0], alias='c', **kw)
      for g in made[1:]:
        if x.add(*g) is not x:
          fail('add does not return the collection')
    want = flatten([y for g in made for y in g], types, ty, ty.IterableThing)
    got = list(x)
    if not same(got, want):
      fail('items', type=typ, got=[str(y) for y in got], want=[str(y) for y in want])
    eq([len(x), bool(x)], [len(want), bool(want)], 'length')
    for k in range(-len(want) - 2, len(want) + 2):
      inside = -len(want) <= k < len(want)
      d = object()
      got = x.item(k, d)
      if got is not (want[k] if inside else d) and not (inside and got == want[k]):
        fail('item', index=k, got=str(got))
      if not inside and x.item(k) is not ty.MISSING:
        fail('default of item is MISSING', index=k)
    if list(x) != list(x):
      fail('iterating twice')
    return any(kids_of(y, ty) for g in made for y in g)
  ctx.check('flatten', st.tuples(st.sampled_from(TYPES), st.lists(st.lists(tree_strategy(), max_size=4), min_size=1, max_size=3),
                                 st.integers(0, 3)).map(list), one, ctx.n(2500, 25000))


def inventories(ctx):
  m = Maker()
  ty = m.ty
  from nisaba.scripts.natural_translit.utils import inventory as iv

  def one(case):
    typ, ops, how = case
    typed = {'any': ty.UNSPECIFIED, 'thing': ty.Thing, 'int': int, 'str': str}[typ]
    things = []
    refused = 0
    with sut('Inventory'):
      fields = set(vars(iv.Inventory('x')))
      items, suppl, get = [], [], {}

      def model_add(t, attr):
        value = getattr(t, attr, ty.MISSING) if attr else t
        if typ == 'any':
          ok = not isinstance(value, ty.Nothing) and not isinstance(value, iv.Inventory)
        else:
          ok = isinstance(value, typed)
        if not ok or value in items or t.alias in fields:
          return False
        fields.add(t.alias)
        items.append(value)
        get[t.alias] = value
        return True

      def thing(alias, value):
        return ty.Thing(alias, value_from=ty.UNSPECIFIED if value is None else value)
      if how:
        firsts = [thing(a, v) for k, a, v, _ in ops[:3]]
        attr = ops[0][3] if ops else ''
        supp = [thing('s%d' % k, k) for k in range(how - 1)]
        inv = iv.Inventory.from_list(firsts, attr, typed, supp if how > 1 else ty.UNSPECIFIED, 'inv')
        for t in firsts:
          model_add(t, attr)
        for k, t in enumerate(supp):
          fields.add(t.alias)
          get[t.alias] = k
        ops = ops[3:]
      else:
        inv = iv.Inventory('inv', typed)
      for kind, alias, value, attr in ops:
        t = thing(alias, value)
        if things and kind == 'again':
          t = things[len(things) // 2]
        things.append(t)
        if kind == 'suppl':
          ok = t.alias not in fields
          eq(inv.add_suppl(t), ok, 'add_suppl')
          if ok:
            fields.add(t.alias)
            get[t.alias] = t.value
        elif kind == 'add':
          inv.add(t)
        else:
          want = model_add(t, attr)
          refused += not want
          eq(inv.add_item(t, attr), want, 'add_item', alias=alias, attr=attr)
        if not same(list(inv), items) and list(map(str, inv)) != list(map(str, items)):
          fail('items', got=[str(y) for y in inv], want=[str(y) for y in items])
        eq(len(inv), len(items), 'length')
        for a in ['a', 'b', 'c', 'd', 'value', 's0', 's1', 'alias', 'item_aliases', 'zzz']:
          d = object()
          if inv.get(a, d) is not get.get(a, d):
            fail('get', alias=a, got=str(inv.get(a, d)))
          if a in get and getattr(inv, a) is not get[a]:
            fail('attribute', alias=a)
          if a not in get and inv.get(a) is not ty.MISSING:
            fail('default of get is MISSING', alias=a)
      eq([inv.alias, inv.text, inv.header()], ['inv', 'inv', '## Inventory: inv'], 'names')
    return refused > 0
  op = st.tuples(st.sampled_from(['item', 'item', 'item', 'again', 'suppl', 'add']), st.sampled_from(['a', 'b', 'c', 'd', 'value', 'text']),
                 st.one_of(st.none(), st.integers(0, 4), st.sampled_from(['v', 'w'])),
                 st.sampled_from(['', '', 'value', 'alias', 'nothing_there'])).map(list)
  ctx.check('inventory', st.tuples(st.sampled_from(['any', 'thing', 'int', 'str']), st.lists(op, max_size=8),
                                   st.integers(0, 3)).map(list), one, ctx.n(2000, 20000))


def fstlists(ctx):
  m = Maker()
  pyn, ty = m.pyn, m.ty
  from nisaba.scripts.natural_translit.utils import fst_list as fl

  def flat(items):
    out = []
    for x in items:
      if isinstance(x, str):
        out.append(x)
      elif isinstance(x, pyn.Fst):
        out.append(x.string())
      else:
        out.extend(flat(kids_of(x, ty) or []))
    return out

  def language(fst, limit=4):
    if fst.start() < 0:
      return []
    return sorted(set(fst.paths().ostrings()))

  def one(case):
    trees, more = case
    with sut('FstList'):
      made = [m.make(t) for t in trees]
      later = [m.make(t) for t in more]
      x = fl.FstList(*made, alias='list')
      x.add(*later)
      want = flat(made + later)
      eq([f.string() for f in x], want, 'items')
      eq(len(x), len(want), 'length')
      keep = [f.copy() for f in x]
      eq(language(x.union()), sorted(set(want)), 'union')
      eq(language(x.union_opt()), sorted(set(want)), 'union_opt')
      eq(language(x.concat()), [''.join(want)], 'concat')
      again = fl.FstList(x, fl.FstList(x, 'q'))
      eq([f.string() for f in again], want + want + ['q'], 'nested lists')
      eq([f.string() for f in fl.FstList.accep(*want)], want, 'accep')
      for f, g in zip(x, keep):
        if not pyn.equal(f, g):
          fail('an operation on the list changed an item', got=str(f))
    return len(want) > 1
  ctx.check('list', st.tuples(st.lists(tree_strategy(), max_size=4), st.lists(tree_strategy(), max_size=2)).map(list),
            one, ctx.n(900, 9000))

  def star(case):
    words, probe = case
    with sut('union_star'):
      f = fl.FstList(*words).union_star()
      got = pyn.compose(pyn.accep(probe), f).start() >= 0
    ok = [True] + [False] * len(probe)
    for i in range(1, len(probe) + 1):
      ok[i] = any(w and probe[:i].endswith(w) and ok[i - len(w)] for w in words)
    eq(got, ok[-1], 'union_star', words=words, probe=probe)
    return ok[-1] and bool(probe)
  word = st.text('ab', max_size=3)
  ctx.check('star', st.tuples(st.lists(word, min_size=1, max_size=3), st.text('ab', max_size=6)).map(list), star, ctx.n(700, 7000))

  def compose(case):
    maps, word = case
    alpha = 'abc'
    with sut('compose, cross, make'):
      fsts = [fl.FstList.cross(*[(c, maps[k][i]) for i, c in enumerate(alpha)]).union_star() for k in range(len(maps))]
      lst = fl.FstList(*fsts)
      got = language(pyn.compose(pyn.accep(word), lst.compose()))
      made = fl.FstList.make(lambda *a: pyn.accep(''.join(a)), *[tuple(mm) for mm in maps])
    eq([f.string() for f in made], [''.join(mm) for mm in maps], 'make')
    want = word
    for mm in maps:
      want = ''.join(mm[alpha.index(c)] for c in want)
    eq(got, [want], 'composition', word=word, maps=maps)
    return len(maps) > 1 and want != word
  ctx.check('compose', st.tuples(st.lists(st.lists(st.sampled_from('abc'), min_size=3, max_size=3), min_size=1, max_size=4),
                                 st.text('abc', max_size=5)).map(list), compose, ctx.n(700, 7000))


def helpers(ctx):
  m = Maker()
  pyn, ty = m.pyn, m.ty

  def value(x):
    return x.value if isinstance(x, ty.Thing) else x

  def nested_fst(t):
    return t[0] in ('list', 'tuple', 'iter', 'gen') and ('fst' in str(t[1]))

  def one(case):
    if any(nested_fst(t) for t in case):
      return False     # transducers don't compare with other objects
    a, b = m.make(case[0]), m.make(case[1])
    fa, fb = isinstance(a, pyn.Fst), isinstance(b, pyn.Fst)
    if fa or fb:
      both = all(isinstance(x, (str, pyn.Fst)) for x in (a, b))
      text = lambda x: x.string() if isinstance(x, pyn.Fst) else x
      want = both and text(a) == text(b)
    else:
      va, vb = value(a), value(b)
      want = not isinstance(va, ty.Nothing) and not isinstance(vb, ty.Nothing) and va == vb
    with sut('is_equal'):
      eq([ty.is_equal(a, b), ty.is_equal(b, a)], [want] * 2, 'is_equal', a=str(case[0]), b=str(case[1]))
      eq([ty.is_string(a), ty.is_string(b)], [isinstance(x, (str, pyn.Fst)) for x in (a, b)], 'is_string')
      if not (fa or fb):
        if ty.type_check(a, b) is not (a if isinstance(a, type(b)) else b):
          fail('type_check', a=str(a), b=str(b))
      if ty.value_of(a) is not value(a):
        fail('value_of', a=str(a))
      if isinstance(a, (str, pyn.Fst)):
        eq(ty.str_of_fstlike(a), a if isinstance(a, str) else a.string(), 'str_of_fstlike')
    return want
  leaf = tree_strategy()
  ctx.check('pairs', st.one_of(st.tuples(leaf, leaf), leaf.map(lambda t: (t, t))).map(list), one, ctx.n(2500, 25000))

  def union(case):
    xs, ys = case
    with sut('is_equal of transducers'):
      f, g = pyn.union(*xs).optimize(), pyn.union(*ys).optimize()
      eq(ty.is_equal(f, f.copy()), True, 'a copy is equal')
      if set(xs) != set(ys):
        eq(ty.is_equal(f, g), False, 'different languages are not equal', a=xs, b=ys)
      eq(ty.is_string(f), len(set(xs)) == 1, 'is_string of a union', a=xs)
      if len(set(xs)) == 1:
        eq([ty.is_equal(f, xs[0]), ty.is_equal(xs[0], f), ty.is_equal(f, xs[0] + 'a')], [True, True, False], 'string')
      eq([ty.is_equal(f, 3), ty.is_equal(None, f), ty.is_equal(f, ty.MISSING)], [False] * 3, 'not a transducer')
    return len(set(xs)) > 1
  words = st.lists(st.text('ab', min_size=1, max_size=3), min_size=1, max_size=3)
  ctx.check('transducers', st.tuples(words, words).map(list), union, ctx.n(800, 8000))

  def things(case):
    alias, text, source, attr = case
    class Holder:
      value = 'held'
    src = {'none': ty.UNSPECIFIED, 'int': 5, 'missing': ty.MISSING, 'thing': ty.Thing('one', value_from=1),
           'holder': Holder(), 'null': None, 'str': 'word'}[source]
    with sut('Thing'):
      t = ty.Thing(alias, text, src, attr)
    if isinstance(src, ty.Nothing):
      want = t
    else:
      want = getattr(src, attr, src) if attr else src
    if t.value is not want and t.value != want:
      fail('value of a thing', source=source, attr=attr, got=str(t.value))
    if alias:
      eq(t.alias, alias, 'alias')
    elif not t.alias.startswith('Thing_'):
      fail('made up alias', got=t.alias)
    if text and not t.text.startswith(text):
      fail('text', got=t.text)
    if isinstance(src, ty.Nothing):
      eq(t.text, text or 'Thing_' + t.alias, 'text')
    return bool(attr)
  ctx.check('things', st.tuples(st.sampled_from(['', 'a', 'b_c']), st.sampled_from(['', 'text']),
                                st.sampled_from(['none', 'int', 'missing', 'thing', 'holder', 'null', 'str']),
                                st.sampled_from(['', 'alias', 'value', 'features', 'text'])).map(list), things, ctx.n(700, 3000))
  for n in ('UNASSIGNED', 'UNSPECIFIED', 'MISSING'):
    x = getattr(ty, n)
    eq([len(x), bool(x), x.alias, ty.is_equal(x, x)], [0, False, n.lower(), False], 'constant', name=n)


def texts(ctx):
  m = Maker()
  pyn, ty = m.pyn, m.ty
  from nisaba.scripts.natural_translit.utils import log_op as log

  class Named:
    def __init__(self, **kw):
      self.__dict__.update(kw)

    def __str__(self):
      return 'shown'

  def one(case):
    kind, alias, text, name, ret = case
    kw = {k: v for k, v in (('alias', alias), ('text', text), ('name', name)) if v is not None}
    if kind == 'obj':
      x = Named(**kw)
      t = kw.get('text', 'shown') or '<no_text>'
      a = kw['alias'] if 'alias' in kw else t
      n = kw['name'] if 'name' in kw else a
      cls = 'Named'
    elif kind == 'fst':
      x = pyn.accep(alias or '')
      t = a = n = alias or '<no_text>'
      cls = 'Fst'
    elif kind == 'union':
      x = pyn.union('a', 'b')
      t = a = n = '<non_string_fst>'
      cls = 'Fst'
    elif kind == 'str':
      x = text or ''
      t = a = n = text or '<no_text>'
      cls = 'str'
    elif kind == 'func':
      x = texts
      t, a, n, cls = str(x), str(x), 'texts', 'function'
    else:
      x = 12
      t = a = n = '12'
      cls = 'int'
    with sut('log_op'):
      eq([log.class_of(x), log.text_of(x), log.alias_of(x), log.name_of(x)], [cls, t, a, n], 'names', kind=kind)
      eq(log.class_and_alias(x), '%s_%s' % (cls, a), 'class_and_alias')
      eq(log.class_and_texts(x, 3, x), '%s_%s, int_3, %s_%s' % (cls, t, cls, t), 'class_and_texts')
      eq(log.class_and_texts(), '', 'class_and_texts of nothing')
      eq(log.from_class_and_text(x), 'from:%s_%s' % (cls, t), 'from_class_and_text')
      if log.dbg_return(x, 'm') is not x or log.dbg_return(x) is not x:
        fail('dbg_return')
      eq([log.dbg_return_true('m'), log.dbg_return_false()], [True, False], 'dbg_return_true, dbg_return_false')
      lst = ret if isinstance(ret, list) else [ret]
      eq([log.dbg_return_in(12, lst), log.dbg_return_in(1, lst, 'detail')], [12 in lst, 1 in lst], 'dbg_return_in')
    return len(kw) > 1
  opt = st.one_of(st.none(), st.sampled_from(['', 'a', 'b_c']))
  ctx.check('names', st.tuples(st.sampled_from(['obj', 'obj', 'obj', 'fst', 'union', 'str', 'func', 'int']), opt, opt, opt,
                               st.one_of(st.integers(0, 2), st.lists(st.sampled_from([1, 12, 3]), max_size=3))).map(list),
            one, ctx.n(800, 4000))


def run(ctx):
  {'iterable': iterable, 'inventory': inventories, 'fstlist': fstlists, 'helpers': helpers, 'text': texts}[ctx.sub](ctx)
