"""N01: feature distances form the documented metric."""
from lib.pbt import eq, fail, sut, st
from props import n01_util as R

TARGETS = ['//nisaba/scripts/natural_translit/utils:feature',
           '//nisaba/scripts/natural_translit/phonology/features:descriptive',
           '//nisaba/scripts/natural_translit/phonology/features:language',
           '//nisaba/scripts/natural_translit/script:grapheme',
           '//nisaba/scripts/natural_translit/utils:symbol']
RULE = ('Random feature inventories: up to three aspects, each a tree of linear, cyclic and '
        'equidistant lists nested up to three levels with any step (0 included); every pair of '
        'values (wildcard and not-applicable included), pairs of random value sets, and the '
        'similarity of random profiles over random choices of aspects, against distances '
        'recomputed from the paths of the two values, as computed and as printed. The shipped feature inventories are read '
        'back through their own lists. Non-trivial: an aspect with three features or more, or '
        'sets of two or more values.')


def subs(tier):
  return ['pairs', 'sets', 'profiles', 'contains', 'texts', 'shipped']


def run(ctx):
  if ctx.sub == 'pairs':
    pairs(ctx)
  elif ctx.sub == 'sets':
    sets(ctx)
  elif ctx.sub == 'profiles':
    profiles(ctx)
  elif ctx.sub == 'contains':
    contains(ctx)
  elif ctx.sub == 'texts':
    texts(ctx)
  else:
    shipped(ctx)


def pairs(ctx):
  def one(specs):
    inv = R.Inv('inv', specs)
    with sut('building the inventory'):
      m = R.build(inv)
    u = inv.universe()
    for asp in inv.asps:
      eq(m[asp].max_dist, asp.max_dist, 'max_dist of the aspect', aspect=asp.name)
      eq([f.alias for f in m[asp]], [f.name for f in asp.feats], 'features of the aspect')
    for a in u:
      for b in u:
        with sut('Feature.distance'):
          d = m[a].distance(m[b])
        eq(d, R.dist(a, b), 'distance', pair=(a.asp.name, a.name, b.asp.name, b.name))
    return max(len(a.feats) for a in inv.asps) > 2
  ctx.check('pairs', R.inventory(), one, ctx.n(2500, 30000))
  # Every flat list of up to 7 values, every kind and a few steps.
  ctx.enum('flat', [[[k, s, [0] * n]] for k in 'ELC' for s in (1, 0.5, 0) for n in range(1, 8)], one)
  # Every list of up to 4 children where one child is itself a list.
  ctx.enum('nested', [[[k, 1, [0] * i + [[k2, 0.5, [0] * w]] + [0] * (n - i)]]
                      for k in 'ELC' for k2 in 'ELC' for w in (1, 2, 3) for n in range(4)
                      for i in range(n + 1)], one)


def pick(u, ids):
  return [u[i % len(u)] for i in ids]


def sets(ctx):
  ids = st.lists(st.integers(0, 60), min_size=0, max_size=4)

  def one(case):
    specs, xs, ys, a = case
    inv = R.Inv('inv', specs)
    with sut('building the inventory'):
      m = R.build(inv)
    from nisaba.scripts.natural_translit.utils import feature
    F = feature.Feature
    u = inv.universe()
    xs, ys, a = pick(u, xs), pick(u, ys), u[a % len(u)]
    sx, sy = F.Set(*[m[x] for x in xs]), F.Set([m[y] for y in ys])
    with sut('distance between sets'):
      got = [sx.distance(sy), sy.distance(sx), m[a].distance(sx), sx.distance(m[a]),
             sx.distance([m[y] for y in ys])]
    w = R.set_dist(xs, ys)
    eq(got, [w, w, R.set_dist([a], xs), R.set_dist([a], xs), w], 'distances between sets',
       x=[x.name for x in xs], y=[y.name for y in ys], a=a.name)
    eq([len(sx), len(sy)], [len(set(xs)), len(set(ys))], 'sizes after comparing')
    return len(set(xs)) > 1 and len(set(ys)) > 1
  ctx.check('sets', st.tuples(R.inventory(), ids, ids, st.integers(0, 60)).map(list), one,
            ctx.n(5000, 60000))


def profiles(ctx):
  ids = st.lists(st.integers(0, 60), max_size=6)

  def one(case):
    specs, specs2, xs, ys, na, chosen, verbose = case
    inv = R.Inv('inv', specs)
    inv2 = R.Inv('other', specs2)     # aspects of the same names
    with sut('building the inventories'):
      m = R.build(inv)
      m2 = R.build(inv2)
    from nisaba.scripts.natural_translit.utils import feature
    F = feature.Feature
    u = inv.universe()
    sides = []
    for s, n in ((xs, na & 1), (ys, na & 2)):
      fs = pick(u, s)
      with sut('Profile'):
        p = F.Profile(m[inv], 'p%d' % len(sides), [m[f] for f in fs], unspecified_aspect_n_a=bool(n))
      ref = {}
      for asp in inv.asps:
        mine = {f for f in fs if f.asp is asp}
        ref[asp] = mine or {asp.n_a if n else asp.any}
        eq({f.alias for f in p.get(m[asp])}, {f.name for f in ref[asp]}, 'aspect of a profile')
      sides.append((p, ref))
    (p, rp), (q, rq) = sides
    asps = [a for i, a in enumerate(inv.asps) if chosen >> i & 1]
    explicit = chosen & 8
    if not explicit:
      asps = inv.asps
    dists = [R.set_dist(rp[a], rq[a]) for a in asps]
    top = sum(a.max_dist for a in asps)
    want = 1 - sum(dists) / top if top else 1
    args = [[m[a] for a in asps]] if explicit else []
    with sut('similarity'):
      got = [p.similarity(q, *args), q.similarity(p, *args), p.compare(q, *args)['similarity']]
      text = p.comparison_table(q, *args, verbose=verbose)
    for g in got:
      if abs(g - want) > 1e-9:
        fail('similarity', got=got, want=want, dists=dists, top=top)
    head, rows = table(text)
    rows = rows[:1] + [r[:3] + [number(r[3])] for r in rows[1:] if len(r) == 4]
    eq(rows, [['aspect', p.text, q.text, 'distance']] + [
        [a.name, values(rp[a]), values(rq[a]), float('%.2f' % d)]
        for a, d in zip(asps, dists) if d or verbose] + [
            ['Total distance', '', '', float('%.2f' % sum(dists))],
            ['Similarity', '', '', float('%.3f' % want)]],
       'comparison table')
    if '%.2f' % top not in head or inv.name not in head:
      fail('heading of a comparison', got=head, max_dist=top)
    eq(table(str(p))[1], [['aspects', 'values']] + [[a.name, values(rp[a])] for a in inv.asps],
       'printed profile')
    multi = F.MultiProfile('both')
    multi.new_profile(p)
    multi.new_profile(F.Profile(m2[inv2], 'o2'))
    eq(table(str(multi))[1], [['aspects', 'values'], ['**inv**', '']] + [
        [a.name, values(rp[a])] for a in inv.asps] + [['**other**', '']] + [
            [a.name, values({a.any})] for a in inv2.asps], 'printed profiles')
    with sut('profiles of two inventories'):
      o = F.Profile(m2[inv2], 'o')
      eq([p.similarity(o), o.similarity(p)], [0, 0], 'profiles of different inventories')
      for a in inv2.asps:
        eq({f for f in p.get(m2[a])}, {m2[a.n_a]},
           'value of an aspect that the profile does not have', aspect=a.name)
        eq(m2[a].is_applicable(p), False, 'is_applicable')
      for a in inv.asps:
        eq(m[a].is_applicable(p), a.n_a not in rp[a], 'is_applicable')
    return any(len(rp[a]) > 1 or len(rq[a]) > 1 for a in asps)
  ctx.check('profiles', st.tuples(R.inventory(), R.inventory(2), ids, ids, st.integers(0, 3),
                                  st.integers(0, 15), st.booleans()).map(list), one,
            ctx.n(4000, 50000))


def table(text):
  """(what precedes a printed table, its rows)"""
  lines = text.split('\n')
  rows = [[c.strip() for c in l[1:-1].split('|')] for l in lines if l.startswith('|')]
  return '\n'.join(l for l in lines if not l.startswith('|')), rows[:1] + rows[2:]


def number(s):
  try:
    return float(s)
  except ValueError:
    fail('no number in a table', got=s)


def values(feats):
  return ', '.join(sorted('any' if f.path is None and f is f.asp.any else
                          'not_applicable' if f.path is None else 'text of ' + f.name for f in feats))


def texts(ctx):
  """What is printed states the distances; distances can be added."""
  def one(case):
    specs, d1, d2 = case
    inv = R.Inv('inv', specs)
    with sut('building the inventory'):
      m = R.build(inv)
    from nisaba.scripts.natural_translit.utils import feature
    F = feature.Feature
    parts = []
    for asp in inv.asps:
      names = ['text of ' + f.name for f in asp.feats]
      with sut('printing an aspect'):
        text = str(m[asp])
      head, rows = table(text)
      eq(rows[0][1:], names, 'heading of the distances')
      eq([r[0] for r in rows[1:]], names, 'rows of the distances')
      for a, r in zip(asp.feats, rows[1:]):
        eq([number(x) for x in r[1:]], [R.dist(a, b) for b in asp.feats], 'row of distances', of=a.name)
      if 'max_dist: %.2f' % asp.max_dist not in head or asp.name not in head:
        fail('heading of an aspect', got=head, want=asp.max_dist)
      parts.append(text)
      for a in asp.feats:
        with sut('printing a feature'):
          lines = str(m[a]).split('\n')
        if a.name not in lines[0] or 'text of ' + a.name not in lines[0]:
          fail('heading of a feature', got=lines[0], name=a.name)
        mine = {l.strip() for l in lines if ': ' in l}
        want = {'%s (text of %s): %.2f' % (b.name, b.name, R.dist(a, b)) for b in asp.feats if b is not a}
        own = {'%s (text of %s): 0.00' % (a.name, a.name)}
        if not want <= mine <= want | own:
          fail('distances of a feature', got=sorted(mine), want=sorted(want))
    with sut('printing an inventory'):
      text = str(m[inv])
    eq([x for x in text.split('\n') if '|' in x], [x for t in parts for x in t.split('\n') if '|' in x],
       'printed inventory')
    if inv.name not in text.split('\n')[0]:
      fail('heading of an inventory', got=text[:80])
    # Distances of features that the aspect does not have yet.
    asp = m[inv.asps[0]]
    old = inv.asps[0].feats[0]
    a, b, c = F('new_a'), F('new_b'), F('new_c')
    top = inv.asps[0].max_dist
    with sut('add_distance'):
      asp.add_distance(a, b, d1)
      asp.add_distance(m[old], c, d2)
    eq([x in asp for x in (a, b, c)], [True] * 3, 'new features of an aspect')
    with sut('distance'):
      got = [a.distance(b), b.distance(a), m[old].distance(c), c.distance(m[old]), asp.max_dist]
    eq(got, [d1, d1, d2, d2, max(top, d1, d2)], 'added distances')
    return max(len(a.feats) for a in inv.asps) > 2
  ctx.check('texts', st.tuples(R.inventory(), R.STEPS, R.STEPS).map(list), one, ctx.n(800, 10000))


def contains(ctx):
  """A value is in the lists and the aspect above it, and in no others."""
  def one(case):
    specs, xs = case
    inv = R.Inv('inv', specs)
    with sut('building the inventory'):
      m = R.build(inv)
    from nisaba.scripts.natural_translit.utils import feature
    F = feature.Feature
    u = inv.universe()
    xs = set(pick(u, xs))
    s = F.Set(*[m[x] for x in xs])
    lists = [(a, k) for a in inv.asps for k in range(len(a.lists))]
    feats = [f for a in inv.asps for f in a.feats]
    for f in feats:
      for a, k in lists:
        want = f.asp is a and any(n == k for n, _ in f.path)
        with sut('is_in, has_feature'):
          got = [m[f].is_in(m[a, k]), m[a, k].has_feature(m[f])]
        eq(got, [want, want], 'feature in list', feature=f.name, list=a.lists[k]['alias'])
      for a in inv.asps:
        with sut('is_in, has_feature'):
          got = [m[f].is_in(m[a]), m[a].has_feature(m[f])]
        eq(got, [f.asp is a] * 2, 'feature in aspect', feature=f.name, aspect=a.name)
      with sut('is_in, has_feature'):
        got = [m[f].is_in(s), s.has_feature(m[f]), m[f].is_in([m[x] for x in xs]), m[f].is_in(m[f])]
      eq(got, [f in xs] * 3 + [True], 'feature in set', feature=f.name)
    # The same questions about a symbol with these features, its expression, and plain lists.
    from nisaba.scripts.natural_translit.utils import expression, symbol
    with sut('a symbol with features'):
      x = symbol.Symbol('x')
      x.features.new_profile(F.Profile(m[inv], 'new'))
      x.add_features(s)
      atomic = expression.Atomic.get_instance(x)
    own = {f for f in xs} | {a.any for a in inv.asps if not any(f.asp is a for f in xs)}
    for f in feats:
      with sut('is_in, has_feature'):
        got = [x.has_feature(m[f]), m[f].is_in(x), m[f].is_in(x.features), m[f].is_in(atomic), m[f].is_in((m[f], x))]
      eq(got, [f in own] * 4 + [True], 'feature in symbol', feature=f.name)
    for a, k in lists:
      want = bool(set(a.under(k)) & own)
      with sut('is_in, has_feature'):
        got = [x.has_feature(m[a, k]), m[a, k].is_in(x), m[a, k].is_in(x.features), m[a, k].is_in(atomic),
               m[a, k].is_in([m[f] for f in xs]), m[a, k].is_in([s, [m[a].any]])]
      eq(got, [want] * 6, 'list in symbol', list=a.lists[k]['alias'])
    for a, k in lists:
      mine = set(a.under(k))
      with sut('is_in, has_feature'):
        eq([m[a, k].is_in(s), s.has_feature(m[a, k])], [bool(mine & xs)] * 2, 'list in set')
        eq({f.alias for f in m[a, k].set()}, {f.name for f in mine}, 'features of a list')
      for b, j in lists:
        if a is b:
          up = j == k
          n = a.lists[k]['parent']
          while n is not None:
            up = up or n == j
            n = a.lists[n]['parent']
          if not up and mine & set(b.under(j)):
            continue       # a list in its own part: not specified
        else:
          up = False
        with sut('is_in, has_feature'):
          eq([m[a, k].is_in(m[b, j]), m[b, j].has_feature(m[a, k])], [up, up], 'list in list',
             inner=a.lists[k]['alias'], outer=b.lists[j]['alias'])
      for b in inv.asps:
        with sut('is_in, has_feature'):
          eq([m[a, k].is_in(m[b]), m[b].has_feature(m[a, k])], [a is b] * 2, 'list in aspect')
    return len(feats) > 2
  ctx.check('contains', st.tuples(R.inventory(), st.lists(st.integers(0, 60), max_size=4)).map(list),
            one, ctx.n(600, 15000))


def shipped(ctx):
  from nisaba.scripts.natural_translit.phonology.features import descriptive, language
  from nisaba.scripts.natural_translit.script import grapheme
  from nisaba.scripts.natural_translit.utils import feature, symbol
  F = feature.Feature
  kinds = {F.ValueListType.EQUIDISTANT: 'E', F.ValueListType.LINEAR: 'L', F.ValueListType.CYCLIC: 'C'}
  invs = [descriptive.FEATURES, language.FEATURES, grapheme.Grapheme.GR_FEATURES,
          symbol.Symbol.SYM_FEATURES]
  cases = [[i, a.alias] for i, inv in enumerate(invs) for a in inv]

  def one(case):
    asp = invs[case[0]].get(case[1])

    def spec(l):
      return [kinds[l.list_type], l.step, [spec(x) if isinstance(x, F.ValueList) else 0 for x in l]]

    def leaves(l):
      return [f for x in l for f in (leaves(x) if isinstance(x, F.ValueList) else [x])]
    ref = R.Asp(None, 'a', spec(asp.root_list))
    fs = leaves(asp.root_list)
    eq(list(asp), fs, 'features of a shipped aspect')
    eq(asp.max_dist, ref.max_dist, 'max_dist', aspect=case[1])
    pairs_ = list(zip(ref.feats, fs)) + [(ref.any, asp.any), (ref.n_a, asp.n_a)]
    for a, x in pairs_:
      for b, y in pairs_:
        with sut('Feature.distance'):
          d = x.distance(y)
        eq(d, R.dist(a, b), 'distance', aspect=case[1], pair=(x.alias, y.alias))
    return len(fs) > 2
  ctx.enum('shipped', cases, one)
