"""Feature inventories from plain data, and a reference for their distances.

A scale is ["E"|"L"|"C", step, [child, ...]]; a child is 0 (a feature) or a
scale. An inventory is a list of scales, one per aspect.
"""
from lib.pbt import st

ERR = 1_000_000
STEPS = st.sampled_from([1, 1, 0.5, 0.25, 2, 0, 3, 0.125])


def scale(max_children=5, depth=2):
  leaf = st.just(0)
  kind = st.sampled_from(['E', 'L', 'C'])

  def node(children):
    return st.tuples(kind, STEPS, st.lists(children, min_size=1, max_size=max_children)).map(list)
  child = leaf
  for _ in range(depth):
    child = st.one_of(leaf, leaf, node(child))
  return node(child)


def inventory(max_aspects=3):
  return st.lists(scale(), min_size=1, max_size=max_aspects)


class Feat:
  """Reference feature: where it stands."""

  def __init__(self, asp, path, name):
    self.asp, self.path, self.name = asp, path, name   # path: [(list node id, index), ...]


class Asp:

  def __init__(self, inv, name, spec):
    self.inv, self.name, self.spec = inv, name, spec
    self.feats, self.lists = [], []     # features; (alias, path prefix, spec, parent)
    self._walk(spec, [], None)
    self.any = Feat(self, None, 'any')
    self.n_a = Feat(self, None, 'n_a')
    self.max_dist = max([0] + [self.pair(a, b) for i, a in enumerate(self.feats)
                               for b in self.feats[:i]])

  def _walk(self, spec, path, parent):
    me = len(self.lists)
    self.lists.append({'id': me, 'spec': spec, 'parent': parent, 'items': [],
                       'alias': self.name if me == 0 else '%s_l%d' % (self.name, me)})
    for i, c in enumerate(spec[2]):
      here = path + [(me, i)]
      if c == 0:
        f = Feat(self, here, '%s_f%d' % (self.name, len(self.feats)))
        self.feats.append(f)
        self.lists[me]['items'].append(f)
      else:
        k = len(self.lists)
        self._walk(c, here, me)
        self.lists[me]['items'].append(k)
    return me

  def under(self, k):
    """The features of list k, at any depth, in order."""
    return [f for f in self.feats if any(n == k for n, _ in f.path)]

  def pair(self, a, b):
    """Steps between two features where their paths part."""
    for (n, i), (_, j) in zip(a.path, b.path):
      if i != j:
        kind, step, items = self.lists[n]['spec']
        d = abs(i - j)
        return {'E': 1, 'L': d, 'C': min(d, len(items) - d)}[kind] * step
    return 0


class Inv:

  def __init__(self, name, specs, prefix='a'):
    self.name = name
    self.asps = [Asp(self, '%s%d' % (prefix, i), s) for i, s in enumerate(specs)]

  def universe(self):
    return [f for a in self.asps for f in a.feats + [a.any, a.n_a]]


def dist(a, b):
  if a.asp is not b.asp:
    return ERR
  if a is b or a is a.asp.any or b is b.asp.any:
    return 0
  if a is a.asp.n_a or b is b.asp.n_a:
    return a.asp.max_dist
  return a.asp.pair(a, b)


def set_dist(xs, ys):
  return min([ERR] + [dist(a, b) for a in xs for b in ys])


def build(inv):
  """The code under test, built from the reference; returns {ref: object}."""
  from nisaba.scripts.natural_translit.utils import feature
  F = feature.Feature
  made = {}

  def lst(asp, k):
    node = asp.lists[k]
    items = []
    for it in node['items']:
      if isinstance(it, int):
        items.append(lst(asp, it))
      else:
        made[it] = F(it.name, 'text of ' + it.name)
        items.append(made[it])
    fn = {'E': F.equidistant, 'L': F.linear, 'C': F.cyclic}[node['spec'][0]]
    made[asp, k] = fn(node['alias'], *items, step=node['spec'][1])
    return made[asp, k]

  aspects = []
  for asp in inv.asps:
    made[asp] = F.Aspect(lst(asp, 0))
    aspects.append(made[asp])
  made[inv] = F.Inventory(inv.name, *aspects)
  for asp in inv.asps:
    made[asp.any], made[asp.n_a] = made[asp].any, made[asp].n_a
  return made
