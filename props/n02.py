"""N02: feature sets and profiles follow set algebra without aliasing."""
from lib.pbt import eq, fail, sut, st
from props import n01_util as R

TARGETS = ['//nisaba/scripts/natural_translit/utils:feature']
RULE = ('Random histories of up to 25 operations over a pool of feature sets, profiles and '
        'multi-profiles of two random inventories (aspects of equal names on purpose): making, '
        'adding, removing, replacing, updating, copying, combining, complementing, ranges, '
        'profile copies and updates, live sets fetched from profiles. After every operation the '
        'content of everything in the pools is compared with a model of plain sets. Arguments '
        'mix values, lists, sets (the target itself too), nested containers and missing markers. '
        'Ranges are also compared for every pair of ends. Non-trivial: a history with a copy or '
        'a fetched set that is changed later.')
N = 40


def subs(tier):
  return ['history1', 'history2', 'history3', 'multis', 'ranges']


def run(ctx):
  if ctx.sub == 'ranges':
    ranges(ctx)
  elif ctx.sub == 'multis':
    history(ctx, MULTI_OPS, ctx.n(700, 12000), [['multi', 0, [], []], ['profile', 4, [[0, 3]], []],
                                                 ['new_profile', 2, [], []]])
  else:
    history(ctx, OPS, ctx.n(1500, 20000), [])


def ranges(ctx):
  from nisaba.scripts.natural_translit.utils import feature
  F = feature.Feature

  def one(specs):
    inv = R.Inv('inv', specs)
    with sut('building'):
      m = R.build(inv)
    feats = {m[f]: f for a in inv.asps for f in a.feats}
    lists = [(a, k) for a in inv.asps for k in range(len(a.lists))]
    values = [(f, f.asp, f.path[-1][0], {f}) for f in feats.values()] + [
        ((a, k), a, a.lists[k]['parent'], set(a.under(k))) for a, k in lists if k]
    count = 0
    for a, k in lists:
      items = [x if isinstance(x, R.Feat) else (a, x) for x in a.lists[k]['items']]
      below = [{x} if isinstance(x, R.Feat) else set(a.under(x[1])) for x in items]
      for i, x in enumerate(items):
        for j, y in enumerate(items):
          if i == j:
            continue
          want, n = set(), i
          while True:
            want |= below[n]
            if n == j:
              break
            n = (n + 1) % len(items)
          with sut('range'):
            got = {feats[f] for f in m[a, k].range(m[x], m[y])}
          eq({f.name for f in got}, {f.name for f in want}, 'range', list=a.lists[k]['alias'], ends=(i, j))
          count += 1
          if count % 5 == 0:
            alias = 'r%d' % count
            with sut('set_range'):
              m[a].set_range(alias, m[x], m[y])
              got = {feats[f].name for f in getattr(m[a], alias)}
            eq(got, {f.name for f in want}, 'set_range')
            with sut('set_not'):
              m[a].set_not('n' + alias, getattr(m[a], alias))
              got = {feats[f].name for f in getattr(m[a], 'n' + alias)}
            eq(got, {f.name for f in set(a.feats) - want}, 'set_not')
    for v, a, k, _ in values[:6]:
      for w, b, l, _ in values:
        for c, n in lists[:3]:
          if (a, k) != (c, n) or (b, l) != (c, n):
            with sut('range'):
              got = list(m[c, n].range(m[v], m[w]))
            eq(got, [], 'range between values that are not items of the list')
    for a in inv.asps:
      with sut('all'):
        eq({feats[f].name for f in m[a].all}, {f.name for f in a.feats}, 'the set of all values')
    return count > 5
  ctx.check('ranges', R.inventory(2), one, ctx.n(2000, 25000))


class World:

  def __init__(self, specs1, specs2):
    self.invs = [R.Inv('inv', specs1), R.Inv('other', specs2)]
    self.m = {}
    with sut('building the inventories'):
      for inv in self.invs:
        self.m.update(R.build(inv))
    self.u = [f for inv in self.invs for f in inv.universe()]
    self.back = {self.m[f]: f for f in self.u}
    self.lists = [(a, k) for inv in self.invs for a in inv.asps for k in range(len(a.lists))]
    self.sets = []       # (object, model set): a model set may be shared
    self.profiles = []   # (object, inv, {asp: model set})
    self.multis = []     # (object, {inv: model profile dict})
    self.aliases = 0
    self.nt = False
    self.derived = set()
    for inv in self.invs:   # the default profile must never change
      self.profiles.append((self.m[inv].not_applicable, inv, {a: {a.n_a} for a in inv.asps}))

  def alias(self):
    self.aliases += 1
    return 'z%d' % self.aliases

  def args(self, spec, no=None):
    """(arguments for the code, features they denote)."""
    from nisaba.scripts.natural_translit.utils import type_op as ty
    out, want = [], set()
    for kind, i in spec:
      if kind == 0:
        f = self.u[i % len(self.u)]
        out.append(self.m[f])
        want.add(f)
      elif kind == 1:
        a, k = self.lists[i % len(self.lists)]
        out.append(self.m[a, k])
        want |= set(a.under(k))
      elif kind == 2 and self.sets:
        o, s = self.sets[i % len(self.sets)]
        if o is no:
          continue
        out.append(o)
        want |= s
      elif kind == 3:
        fs = [self.u[(i + 3 * n) % len(self.u)] for n in range(3)]
        out.append([self.m[fs[0]], ([self.m[fs[1]]], self.m[fs[2]], ty.MISSING)])
        want |= set(fs)
      elif kind == 4 and len(self.profiles) > 2:
        o, _, p = self.profiles[2 + i % (len(self.profiles) - 2)]
        out.append(o)
        want |= set().union(*p.values())
      elif kind == 5:
        out.append((ty.UNSPECIFIED, ty.MISSING)[i % 2])
    return out, want


def history(ctx, ops, n, prelude):
  from nisaba.scripts.natural_translit.utils import feature
  F = feature.Feature
  arg = st.tuples(st.sampled_from([0, 0, 0, 1, 2, 2, 3, 4, 5]), st.integers(0, N)).map(list)
  args = st.lists(arg, max_size=3)
  op = st.tuples(st.sampled_from(ops), st.integers(0, N), args, args).map(list)

  def one(case):
    specs1, specs2, ops = case
    w = World(specs1, specs2)
    for step, (name, i, a1, a2) in enumerate(prelude + ops):
      with sut('%s (operation %d)' % (name, step)):
        apply(F, w, name, i, a1, a2)
      compare(w, '%d: %s' % (step, name))
    return w.nt
  ctx.check('history', st.tuples(R.inventory(2), R.inventory(2), st.lists(op, min_size=1, max_size=25)
                                 ).map(list), one, n)


def whole(p):
  """Every aspect has a value, all of its own (live sets can be changed to anything)."""
  return all(s and all(f.asp is a for f in s) for a, s in p.items())


def compare(w, where):
  name = lambda fs: sorted(f.asp.inv.name + '.' + f.asp.name + '.' + f.name for f in fs)
  for n, (o, s) in enumerate(w.sets):
    got = {w.back[f] for f in o}
    if got != s or len(o) != len(s):
      fail('set %d after operation %s' % (n, where), got=name(got), want=name(s))
  for n, (o, inv, p) in enumerate(w.profiles):
    for a in inv.asps:
      got = {w.back[f] for f in o.get(w.m[a])}
      if got != p[a]:
        fail('aspect %s of profile %d after operation %s' % (a.name, n, where), got=name(got),
             want=name(p[a]))
  for n, (o, d) in enumerate(w.multis):
    for inv in w.invs:
      eq(o.has_profile(w.m[inv]), inv in d, 'has_profile after operation ' + where)
      p = o.get(w.m[inv])
      for a in inv.asps:
        want = d[inv][a] if inv in d else {a.n_a}
        got = {w.back[f] for f in p.get(w.m[a])}
        if got != want:
          fail('aspect %s of %s of multi-profile %d after operation %s' % (a.name, inv.name, n, where),
               got=name(got), want=name(want))


OPS = ['new', 'new', 'add', 'add', 'remove', 'replace', 'reset', 'update', 'update', 'copy', 'copy',
       'union', 'difference', 'intersection', 'non_generic', 'aspect_set', 'aspect_not', 'make_sets',
       'profile', 'profile', 'profile_na', 'pcopy', 'pcopy', 'inv_copy', 'pupdate', 'pupdate',
       'pupdate', 'pget', 'pget', 'multi', 'new_profile', 'new_profile', 'mget', 'mcopy', 'mupdate',
       'group', 'has', 'equal']

# Sets of profiles only: made, filled, copied, and changed.
MULTI_OPS = ['multi', 'profile', 'new_profile', 'new_profile', 'new_profile', 'mget', 'mcopy', 'mcopy',
             'mupdate', 'mupdate', 'mupdate', 'pupdate', 'pget', 'update']


def apply(F, w, name, i, a1, a2):
  inv = w.invs[i % 2]
  asp = inv.asps[i // 2 % len(inv.asps)]
  if name in ('new', 'make_sets', 'aspect_set', 'aspect_not'):
    x, want = w.args(a1)
    if name == 'new':
      o = F.Set(*x, alias=w.alias())
    else:
      alias = w.alias()
      owner = w.m[inv] if name == 'make_sets' else w.m[asp]
      if name == 'make_sets':
        owner.make_sets((alias, x))
      else:
        want = {f for f in want if f.asp is asp}
        if name == 'aspect_not':
          want = set(asp.feats) - want
          owner.set_not(alias, *x)
        else:
          owner.set(alias, *x)
      o = getattr(owner, alias)
    w.sets.append((o, set(want)))
  elif name in ('add', 'remove', 'update', 'reset', 'replace', 'copy', 'union', 'difference',
                'intersection', 'non_generic', 'has', 'equal'):
    if not w.sets:
      return
    o, s = w.sets[i % len(w.sets)]
    x, ax = w.args(a1)
    if name in ('add', 'remove', 'update', 'reset', 'replace'):
      w.nt = w.nt or id(o) in w.derived
    if name == 'add':
      r = o.add(*x)
      s |= ax
    elif name == 'remove':
      r = o.remove(*x)
      s -= ax
    elif name == 'update':
      r = o.update(*x)
      s.clear()
      s |= ax
    elif name == 'reset':
      r = o.reset()
      s.clear()
    elif name == 'replace':
      y, ay = w.args(a2, no=o)
      r = o.replace(tuple(x), tuple(y))
      s -= ax
      s |= ay
    elif name == 'has':
      for f in w.u:
        eq(o.has_feature(w.m[f]), f in s, 'has_feature')
      for a, k in w.lists:
        eq(o.has_feature(w.m[a, k]), bool(s & set(a.under(k))), 'has_feature of a list')
      return
    elif name == 'equal':
      o2, s2 = w.sets[(i + 1) % len(w.sets)]
      eq([o.is_equal(o2), o2.is_equal(o), o.is_equal(o)], [s == s2, s == s2, True], 'is_equal')
      return
    else:
      want = {'copy': s, 'union': s | ax, 'difference': s - ax, 'intersection': s & ax,
              'non_generic': {f for f in s if f is not f.asp.any and f is not f.asp.n_a}}[name]
      r = getattr(o, name)(*([] if name in ('copy', 'non_generic') else x))
      if r is o:
        fail(name + ' returned the set itself')
      w.sets.append((r, set(want)))
      w.derived |= {id(o), id(r)}
      return
    if r is not o:
      fail(name + ' did not return the set')
  elif name in ('profile', 'profile_na'):
    x, want = w.args(a1)
    na = name == 'profile_na'
    if i % 3:
      o = F.Profile(w.m[inv], w.alias(), *x, unspecified_aspect_n_a=na)
    else:
      alias = w.alias()
      o = w.m[inv].add_profile(alias, *x, unspecified_aspect_n_a=na)
      if getattr(w.m[inv], alias) is not o:
        fail('add_profile: the inventory holds another profile')
    w.profiles.append((o, inv, {a: {f for f in want if f.asp is a} or {a.n_a if na else a.any}
                                for a in inv.asps}))
  elif name in ('pcopy', 'inv_copy', 'pupdate', 'pget'):
    # The shipped default (first two) may be copied and read, not updated.
    k = i % len(w.profiles)
    if name == 'pupdate' and k < 2:
      if len(w.profiles) == 2:
        return
      k = 2 + i % (len(w.profiles) - 2)
    o, inv, p = w.profiles[k]
    if name in ('pcopy', 'inv_copy'):
      if not whole(p):
        return       # an emptied aspect: what a copy holds is not specified
      alias = w.alias()
      r = o.copy(alias) if name == 'pcopy' else w.m[inv].copy_profile(o, alias)
      eq(r.alias, alias, 'alias of the copy')
      w.profiles.append((r, inv, {a: set(p[a]) for a in inv.asps}))
      w.derived |= {id(o), id(r)}
    elif name == 'pupdate':
      x, want = w.args(a1)
      r = o.update(*x)
      if r is not o:
        fail('update did not return the profile')
      for a in inv.asps:
        new = {f for f in want if f.asp is a}
        if new:
          p[a].clear()
          p[a] |= new
      w.nt = w.nt or id(o) in w.derived
    elif k >= 2:
      a = inv.asps[i // 2 % len(inv.asps)]
      r = o.get(w.m[a])
      w.sets.append((r, p[a]))
      w.derived.add(id(r))
  elif name == 'multi':
    w.multis.append((F.MultiProfile(w.alias()), {}))
  elif name in ('new_profile', 'mget', 'mcopy', 'mupdate'):
    if not w.multis:
      return
    o, d = w.multis[i % len(w.multis)]
    if name == 'new_profile':
      q, qinv, p = w.profiles[i % len(w.profiles)]
      if not whole(p):
        return       # an emptied aspect has no value to replace the old one with
      r = o.new_profile(q)
      if r is q:
        fail('new_profile did not copy')
      eq([{w.back[f] for f in r.get(w.m[a])} for a in qinv.asps],
         [p[a] for a in qinv.asps], 'profile returned by new_profile')
      if qinv in d:
        for a in qinv.asps:
          new = set(p[a])
          d[qinv][a].clear()
          d[qinv][a] |= new
      else:
        d[qinv] = {a: set(p[a]) for a in qinv.asps}
      w.derived |= {id(q)}
      if getattr(o, qinv.name) is not o.get(w.m[qinv]):
        fail('the profile is not found under the alias of its inventory')
    elif name == 'mget':
      inv = w.invs[i // 2 % 2]
      if inv in d:
        r = o.get(w.m[inv])
        if not any(r is q for q, _, _ in w.profiles):
          w.profiles.append((r, inv, d[inv]))
          w.derived.add(id(r))
      else:
        q, _, p = w.profiles[-1]
        if o.get(w.m[inv], q) is not q:
          fail('the given default is not returned')
    elif name == 'mupdate':
      inv = w.invs[i // 2 % 2]
      if inv in d:
        x, want = w.args(a1)
        o.get(w.m[inv]).update(*x)
        for a in inv.asps:
          new = {f for f in want if f.asp is a}
          if new:
            d[inv][a].clear()
            d[inv][a] |= new
    else:
      if not all(whole(p) for p in d.values()):
        return
      r = o.copy()
      if r is o:
        fail('copy returned the multi-profile itself')
      w.multis.append((r, {inv: {a: set(s) for a, s in p.items()} for inv, p in d.items()}))
      w.nt = True
  elif name == 'group':
    x, want = w.args(a1)
    got = {
        (inv.alias, a.alias): {w.back[f] for f in s}
        for inv, g in F.Set.group_by_aspect(*x).items() for a, s in g.items()}
    ref = {}
    for f in want:
      ref.setdefault((f.asp.inv.name, f.asp.name), set()).add(f)
    eq(set(got), set(ref), 'groups by aspect')
    eq(got, ref, 'group_by_aspect')
