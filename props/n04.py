"""N04: symbol and grapheme inventories look up and transcribe consistently."""
import unicodedata

from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/natural_translit/utils:symbol',
           '//nisaba/scripts/natural_translit/utils:operation',
           '//nisaba/scripts/natural_translit/script/inventories:latn',
           '//nisaba/scripts/natural_translit/phonology/inventories:x_uni']
RULE = ('Random histories on symbol inventories: adding new, repeated and clashing symbols, lists, '
        'supplements, lookups by every key, parsing raw text with and without a shared inventory, '
        'pairing by features; next to plain dictionaries as the model. Grapheme inventories parse '
        'random Unicode text. Operation inventories are built from random argument lists. '
        'Non-trivial: a history with an accepted and a refused symbol, a text with an unknown '
        'character, an inventory with three operations or more.')

ALIASES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'text', 'CTRL', 'prefix', 'x_1', 'vowels']
TEXTS = ['', 'T', 'U', 'V', '⟨a⟩', 'a']
RAWS = ['', 'a', 'b', 'ab', 'क', 'é', ' ', '😀', 'c']


def subs(tier):
  return ['history1', 'history2', 'operation', 'grapheme1', 'grapheme2', 'builtin']


class World:

  def __init__(self):
    from nisaba.scripts.natural_translit.utils import feature as f
    from nisaba.scripts.natural_translit.utils import symbol as s
    from nisaba.scripts.natural_translit.utils import type_op as ty
    self.s, self.ty = s, ty
    feat = f.Feature
    self.feats = feat.Inventory(
        'test_features',
        feat.Aspect(feat.equidistant('size', feat('big'), feat('small'), feat('huge'))),
        feat.Aspect(feat.equidistant('hue', feat('red'), feat('blue'))))
    self.invs = [s.Symbol.Inventory('inv%d' % i) for i in range(2)]
    self.models = [Model(inv, s.Symbol.CTRL) for inv in self.invs]
    self.syms = []        # symbols made
    self.info = {}        # id -> (alias, text, raw, index, name)
    self.attrs = {}       # id -> {attribute: value}
    self.extra = {}       # id -> {aspect: set of features}


class Model:

  def __init__(self, inv, ctrl):
    self.items, self.fields = [], set(vars(inv)) - {'lists'}
    self.get = {'CTRL': ctrl}
    self.dicts = {'index': {}, 'raw': {}, 'text': {}}
    self.unknowns = 0
    for c in ctrl:
      self.put(c)

  def put(self, x):
    self.dicts['index'][x.index] = x
    for k in ('raw', 'text'):
      if getattr(x, k):
        self.dicts[k][getattr(x, k)] = x

  def add(self, x):
    if any(x is y for y in self.items) or x.alias in self.fields:
      return False
    self.items.append(x)
    self.fields.add(x.alias)
    self.get[x.alias] = x
    self.put(x)
    return True


def ids(xs):
  return [getattr(x, 'alias', x) + '@%d' % id(x) if hasattr(x, 'alias') else repr(x) for x in xs]


def check_world(w, home, what):
  ctrl = w.s.Symbol.CTRL
  for inv, m in zip(w.invs, w.models):
    eq(ids(inv), ids(m.items), 'symbols of an inventory ' + what)
    eq(len(inv), len(m.items), 'length')
    for alias in ALIASES + list(m.get):
      default = object()
      want = m.get.get(alias, default)
      got = inv.get(alias, default)
      if isinstance(want, list):
        eq(ids(got), ids(want), 'list supplement %r' % alias)
      elif got is not want:
        fail('get(%r) %s' % (alias, what), got=str(got), want=str(want))
    for kind in ('index', 'raw', 'text'):
      d = m.dicts[kind]
      keys = list(d) + [-3, 0, '', 'zz', 'ba', w.s.Symbol.ReservedIndex.UNDEFINED_PREFIX + m.unknowns + 1]
      look = getattr(inv, kind + '_lookup')
      for k in keys:
        want = d.get(k, ctrl.unk)
        got = look(k)
        if got is not want:
          fail('%s_lookup(%r) %s' % (kind, k, what), got=str(got), want=str(want))
        if inv.lookup(k, kind + '_dict', ctrl.oos) is not d.get(k, ctrl.oos):
          fail('lookup with default', key=k)
  for x in w.syms:
    alias, text, raw, index, name = w.info[id(x)]
    eq([x.alias, x.text, x.raw, x.index, x.name], [alias, text, raw, index, name], 'symbol fields')
    want = home.get(id(x))
    if x.inventory is not (w.s.Symbol.Inventory.EMPTY if want is None else w.invs[want]):
      fail('inventory of a symbol is the first it was added to', symbol=alias, got=x.inventory.alias)
    for k, v in w.attrs.get(id(x), {}).items():
      if getattr(x, k, None) is not v:
        fail('paired attribute %s of %s' % (k, alias), got=str(getattr(x, k, None)), want=str(v))
    eq(x.is_control(), False, 'is_control of an ordinary symbol')
  for c in ctrl:
    eq(c.is_control(), True, 'is_control of a control symbol')
    if any(hasattr(c, a) for a in ('big', 'small', 'huge', 'red', 'blue', 'size', 'hue', 'numeric')):
      fail('a control symbol got attributes', symbol=c.alias)
    if c.inventory is not w.s.Symbol.Inventory.EMPTY:
      fail('a control symbol changed inventory')


def one_history(ops):
  with sut('symbol inventories'):
    w = World()
    S = w.s.Symbol
    ctrl = S.CTRL
    home = {}
    sizes = {'big', 'small', 'huge'}
    accepted = refused = 0
    for op in ops:
      kind, i, args = op[0], op[1], op[2:]
      inv, m = w.invs[i], w.models[i]

      def expect_add(x):
        ok = m.add(x)
        if ok and id(x) not in home and id(x) in w.info:
          home[id(x)] = i
        return ok
      if kind == 'new':
        alias, text, raw, index, name = args
        x = S(alias, text, raw, w.ty.UNSPECIFIED if index is None else index, name)
        w.syms.append(x)
        w.info[id(x)] = (alias, text or 'Symbol_' + alias, raw,
                         hash(x) if index is None else index, name or alias)
        if text == '' and x.text != 'Symbol_' + alias:
          fail('default text', got=x.text)
      elif kind == 'add':
        picks = [w.syms[k % len(w.syms)] for k in args[0]] if w.syms else []
        if args[2]:
          picks = picks + [list(ctrl)[args[0][0] % 7] if args[0] else ctrl.eps, 'not a symbol']
        alias = args[1]
        # What happens with control symbols and other objects among the arguments.
        want = []
        for x in picks:
          if isinstance(x, str):
            continue
          if expect_add(x):
            want.append(x)
        got = inv.add_symbols(*picks, list_alias=alias)
        eq(ids(got), ids(want), 'added symbols')
        accepted += len(want)
        refused += len(picks) - len(want)
        if alias and alias not in m.fields:
          m.fields.add(alias)
          m.get[alias] = want
      elif kind == 'suppl':
        alias, value = args
        ok = alias not in m.fields
        eq(inv.make_suppl(alias, value), ok, 'make_suppl')
        if ok:
          m.fields.add(alias)
          m.get[alias] = value
      elif kind == 'unk':
        raw = args[0]
        x = inv.raw_from_unknown(raw)
        m.unknowns += 1
        alias = 'from_unk_%d' % m.unknowns
        check_unknown(w, x, alias, raw, m.unknowns)
        expect_add(x)
        w.syms.append(x)
      elif kind == 'parse':
        text, share, method = args
        j = 1 - i if share else i
        target, tm = w.invs[j], w.models[j]
        f = inv.parse if method else inv.str_to_raw_symbols
        got = list(f(text, target)) if share else list(f(text))
        eq(len(got), len(text), 'number of symbols parsed')
        for ch, x in zip(text, got):
          known = tm.dicts['raw'].get(ch)
          if known is not None:
            if known is not x:
              fail('raw text not parsed as the known symbol', char=ch, got=str(x), want=str(known))
            continue
          tm.unknowns += 1
          check_unknown(w, x, 'from_unk_%d' % tm.unknowns, ch, tm.unknowns)
          if tm.add(x):
            home[id(x)] = j
          w.syms.append(x)
        eq(''.join(x.raw for x in got), text, 'raw text of the parsed symbols')
      elif kind == 'pair':
        if not w.syms:
          continue
        k, l, fa, fb, asp, use_ctrl = args
        x, y = w.syms[k % len(w.syms)], w.syms[l % len(w.syms)]
        if x is y:
          continue
        f = {n: getattr(w.feats.size, n, None) for n in ('big', 'small', 'huge')}
        if fa == fb:
          continue
        a, b = f[fa], f[fb]
        if use_ctrl == 1:
          y = ctrl.eos
        elif use_ctrl == 2:
          x, y = ctrl.eos, x
        for z in (x, y):
          if z not in ctrl and not z.features.has_profile(w.feats):
            from nisaba.scripts.natural_translit.utils import feature as ft
            z.features.new_profile(ft.Feature.Profile(w.feats, 'p'))
        x.feature_pair(y, a, b, add_aspect=asp)
        for p, q, own, other in ((x, y, a, b), (y, x, b, a)):
          if p in ctrl:
            continue
          d = w.attrs.setdefault(id(p), {})
          d[own.text] = p
          d[other.text] = ctrl.nos if q in ctrl else q
          if asp:
            d['size'] = own
          w.extra.setdefault(id(p), set()).add(own)
          if set(p.features.test_features.size) != w.extra[id(p)]:
            fail('features after pairing', got=str(p.features.test_features.size))
          if not p.has_feature(own):
            fail('has_feature after pairing')
          if list(p.features.test_features.hue) != [w.feats.hue.any]:
            fail('an unrelated aspect changed', got=str(p.features.test_features.hue))
      check_world(w, home, 'after ' + kind)
    return bool(accepted and refused)


def check_unknown(w, x, alias, raw, n):
  index = w.s.Symbol.ReservedIndex.UNDEFINED_PREFIX + n
  name = alias + '_' + raw
  eq([x.alias, x.raw, x.index, x.name, x.text], [alias, raw, index, name, '<%s>' % name], 'unknown symbol')
  w.info[id(x)] = (alias, '<%s>' % name, raw, index, name)


def history_strategy():
  i = st.integers(0, 1)
  new = st.tuples(st.just('new'), i, st.sampled_from(ALIASES), st.sampled_from(TEXTS), st.sampled_from(RAWS),
                  st.one_of(st.none(), st.integers(0, 8)), st.sampled_from(['', 'name', 'NAME A']))
  add = st.tuples(st.just('add'), i, st.lists(st.integers(0, 20), max_size=4),
                  st.sampled_from(['', '', 'vowels', 'list1', 'a']), st.booleans())
  suppl = st.tuples(st.just('suppl'), i, st.sampled_from(ALIASES), st.integers(0, 5))
  text = st.text(st.sampled_from('abcक é😀xyż\u0301'), max_size=6)
  unk = st.tuples(st.just('unk'), i, st.sampled_from(['q', 'qq', 'ж']))
  parse = st.tuples(st.just('parse'), i, text, st.booleans(), st.booleans())
  size = st.sampled_from(['big', 'small', 'huge'])
  pair = st.tuples(st.just('pair'), i, st.integers(0, 20), st.integers(0, 20), size, size, st.booleans(),
                   st.sampled_from([0, 0, 0, 1, 2]))
  return st.lists(st.one_of(new, new, new, add, add, suppl, unk, parse, pair).map(list), max_size=16)


def operations(ctx):
  from nisaba.scripts.natural_translit.utils import operation as o
  O = o.Operation

  def one(case):
    prefix, args = case
    args = [tuple(a) for a in args]
    with sut('operation inventory'):
      inv = O.Inventory.from_args('ops', prefix, *args)
    names, want = [], []
    seen = set(vars(O.Inventory('x')))
    index = prefix
    for alias, cost in args:
      four = []
      for pre, extra in (('', 0), ('partial_', 0), ('unexpected_', .75), ('unexpected_partial_', .75)):
        four.append((pre + alias, cost + extra))
      want.append(four)
    ops = list(inv)
    eq([(x.alias, x.base_cost) for x in ops], [q for four in want for q in four], 'operations')
    eq([str(x) for x in ops], ['%s (%.3f)' % q for four in want for q in four], 'strings')
    idx = [x.index for x in ops]
    eq(len(set(idx)), len(idx), 'indices are distinct')
    eq(idx, sorted(idx), 'indices increase')
    if any(k % 10 == 0 or k <= prefix for k in idx):
      fail('reserved index', got=idx)
    eq(idx, [k for k in range(prefix + 1, prefix + 2 * len(idx) + 12) if k % 10][:len(idx)],
       'indices are consecutive but for multiples of ten')
    for x in ops:
      if inv.index_lookup(x.index) is not x or inv.get(x.alias) is not x or x.inventory is not inv:
        fail('operation not found', alias=x.alias)
      eq(x.is_assigned(), True, 'is_assigned')
      eq(x.is_free(), x.base_cost == 0, 'is_free')
      for y in ops:
        eq(x.is_cheaper_than(y), x.base_cost < y.base_cost, 'is_cheaper_than')
    for k in range(prefix - 2, prefix + 2 * len(idx) + 12):
      if k not in idx and inv.index_lookup(k) is not O.COMMON.error:
        fail('unknown index', index=k)
    for n in range(0, len(ops), 4):
      m, p, u, up = ops[n:n + 4]
      got = [[x.match.alias, x.partial.alias, x.unexpected.alias] for x in (m, p, u, up)]
      eq(got, [[m.alias, p.alias, u.alias], [m.alias, p.alias, up.alias],
               [m.alias, up.alias, u.alias],
               [m.alias, up.alias, up.alias]], 'derived operations')
      if u.partial is not up:
        fail('partial of an unexpected operation', got=u.partial.alias)
    eq(str(inv), '\n'.join('%s (%.3f)' % four[0] for four in want) + '\n', 'string of the inventory')
    return len(args) > 2
  alias = st.text(st.sampled_from('abcdefg'), min_size=1, max_size=3)
  cost = st.sampled_from([0, .1, .25, 1, 1.25, 10])
  args = st.lists(st.tuples(alias, cost), max_size=9, unique_by=lambda a: a[0])
  ctx.check('from_args', st.tuples(st.sampled_from([0, 100, 200, 300, 1000]), args), one, ctx.n(600, 6000))


def any_text():
  return st.text(st.one_of(
      st.sampled_from('abczABZ019 -'), st.sampled_from('अकषखघज़ंः्ািதறਕ\u200c\u200d'),
      st.characters(codec='utf-8', exclude_categories=['Cs'])), max_size=8)


def graphemes(ctx):
  from nisaba.scripts.natural_translit.script import grapheme as g
  from nisaba.scripts.natural_translit.utils import symbol as s
  G = g.Grapheme

  def info(ch):
    try:
      name = unicodedata.name(ch)
    except ValueError:
      name = 'GRAPHEME'
    return ['u_' + hex(ord(ch)), ch, ch, 2_000_000 + ord(ch), '%s U+%04X' % (name, ord(ch))]

  def one(case):
    known, texts, share = case
    with sut('grapheme inventories'):
      inv = G.Inventory(G.GR_FEATURES.script.deva)
      other = G.Inventory(G.GR_FEATURES.script.und)
      eq([inv.alias, other.alias], ['deva', 'und'], 'aliases of the inventories')
      made = {}
      for k, ch in enumerate(known):
        x = G.from_char(ch, *(['g%d' % k] if k % 2 else []))
        want = info(ch)
        if k % 2:
          want[0] = 'g%d' % k
        eq([x.alias, x.text, x.raw, x.index, x.name], want, 'from_char')
        if list(inv.add_graphemes(x)) != [x]:
          fail('grapheme not added')
        made[ch] = x
        if x.inventory is not inv:
          fail('inventory of a grapheme')
      imported = other.import_graphemes(*made.values(), list_alias='imports')
      eq(ids(other.imports), ids(imported), 'list of imports')
      eq(len(imported), len(made), 'number imported')
      for x, y in zip(made.values(), imported):
        eq([y.alias, y.text, y.raw, y.index, y.name], [x.alias, x.text, x.raw, x.index, x.name], 'imported copy')
        if y is x or y.features is x.features or x.inventory is not inv or y.inventory is not other:
          fail('importing shares the grapheme')
      pool = {True: {y.raw: y for y in imported}, False: dict(made)}
      seen = set()
      for k, text in enumerate(texts):
        use = share and k % 2 == 1
        got = list(inv.parse(text, other) if use else inv.parse(text))
        eq(len(got), len(text), 'number of graphemes')
        eq(''.join(x.raw for x in got), text, 'raw text of the graphemes')
        for ch, x in zip(text, got):
          old = pool[use].get(ch)
          if old is not None:
            if x is not old:
              fail('known grapheme not found', char=ch, got=x.alias)
            continue
          eq([x.alias, x.text, x.raw, x.index, x.name], info(ch), 'grapheme from an unknown character')
          pool[use][ch] = x
          seen.add(ch)
      for use, target in ((False, inv), (True, other)):
        eq(sorted(ids(target)), sorted(ids(pool[use].values())), 'graphemes of the inventory')
        atoms = list(target.atomics)
        eq(sorted(a.symbol.raw for a in atoms), sorted(pool[use]), 'atomic expressions')
        for ch, x in pool[use].items():
          if (target.raw_lookup(ch) is not x or target.text_lookup(ch) is not x
              or target.index_lookup(x.index) is not x or target.get(x.alias) is not x):
            fail('lookup of a grapheme', char=ch)
      return bool(seen)
  ctx.check('parse', st.tuples(st.lists(st.characters(codec='utf-8', exclude_categories=['Cs']), max_size=5, unique=True),
                               st.lists(any_text(), max_size=4), st.booleans()), one, ctx.n(700, 8000))


def builtin(ctx):
  from nisaba.scripts.natural_translit.phonology.inventories import x_uni
  from nisaba.scripts.natural_translit.script.inventories import latn
  from nisaba.scripts.natural_translit.utils import operation as o
  from nisaba.scripts.natural_translit.utils import symbol as s
  ctrl = s.Symbol.CTRL
  L, P = latn.LATN, x_uni.PHONEMES

  def one(case):
    which, k = case
    inv = {'latn': L, 'x_uni': P, 'ctrl': ctrl}[which]
    x = list(inv)[k]
    if which != 'ctrl':
      if inv.index_lookup(x.index) is not x or inv.get(x.alias) is not x or inv.text_lookup(x.text) is not x:
        fail('lookup', symbol=x.alias)
      if x.inventory is not inv or x.is_control():
        fail('inventory or kind', symbol=x.alias)
      a = inv.atomics.get(x.alias)
      if a.symbol is not x or a.symbols() != [[x]]:
        fail('atomic expression', symbol=x.alias)
    else:
      eq([x.is_control(), x.raw], [True, ''], 'control symbol')
      for other in (L, P):
        if other.index_lookup(x.index) is not x or other.text_lookup(x.text) is not x or other.CTRL is not ctrl:
          fail('control symbol not shared', symbol=x.alias)
    every = [y for i in (L, P, ctrl) for y in i]
    clash = [y.alias for y in every if y is not x and (y.index == x.index or x.text and y.text == x.text
                                                       and y.inventory is x.inventory)]
    eq(clash, [], 'another symbol with the same index or text', symbol=x.alias)
    return True
  for which, inv in (('latn', L), ('x_uni', P), ('ctrl', ctrl)):
    ctx.enum(which, ([which, k] for k in range(len(inv))), one)

  def letter(k):
    x = L.letter.item(k)
    low = k < 26
    ch = 'abcdefghijklmnopqrstuvwxyz'
    lower, upper = x.lower, x.upper
    eq([lower.raw, upper.raw], [x.raw.lower(), x.raw.upper()], 'case pair', letter=x.raw)
    eq([x in L.lower, x in L.upper], [x.raw.islower(), x.raw.isupper()], 'case lists')
    eq([x in L.vowel, x in L.consonant], [x.raw.lower() in 'aeiou', x.raw.lower() not in 'aeiou'], 'letter kinds')
    eq(x.alias, x.raw if x.raw.islower() else x.raw.lower() + '_upper', 'alias')
    eq(x.has_feature(x.GR_FEATURES.case.lower), x.raw.islower(), 'case feature')
    if str(lower.descriptives()) != str(upper.descriptives()) and lower.raw not in 'x':
      fail('case changes the sound', letter=x.raw, lower=str(lower.descriptives()), upper=str(upper.descriptives()))
    if x.case is not (x.GR_FEATURES.case.lower if x.raw.islower() else x.GR_FEATURES.case.upper):
      fail('case attribute', letter=x.raw)
    return True
  ctx.enum('letters', range(len(L.letter)), letter)
  ctx.enum('digits', range(10), lambda k: eq([L.number.item(k).raw, len(L.number)], [str(k), 10], 'digits') or True)
  eq(len(L.letter), 52, 'letters')

  def phoneme(k):
    """The features agree with the conventional description in the name."""
    x = list(P)[k]
    words = x.name.replace('\u00ad', '').replace('_', ' ').split()
    f = x.DESCRIPTIVE_FEATURES
    has = lambda v: x.has_feature(v)
    eq(has(f.ph_class.vowel), words[-1] == 'vowel', 'vowel', name=x.name)
    eq(has(f.ph_class.consonant), words[-1] != 'vowel', 'consonant', name=x.name)
    return True
  ctx.enum('phonemes', range(len(P)), phoneme)


def run(ctx):
  if ctx.sub == 'operation':
    operations(ctx)
  elif ctx.sub.startswith('grapheme'):
    graphemes(ctx)
  elif ctx.sub == 'builtin':
    builtin(ctx)
  else:
    ctx.check('history', history_strategy(), one_history, ctx.n(900, 10000))
