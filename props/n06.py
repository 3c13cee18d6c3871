"""N06: lattices give each coordinate one state of their own."""
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/natural_translit/utils:lattice']
RULE = ('Random histories over several transducers and lattices: creating lattices with or without '
        'a transducer, an error node and states, asking for nodes and states inside and outside the '
        'bounds, assigning the state of one node to another; next to a model with a state counter '
        'for each transducer and a table of coordinates. Non-trivial: two lattices and a '
        'state outside the bounds.')


def subs(tier):
  return ['history1', 'history2']


def run(ctx):
  import pynini
  from nisaba.scripts.natural_translit.utils import lattice as lt

  def one(ops):
    with sut('lattices'):
      fsts = []      # [fst, number of states]
      lats = []      # [lattice, k, error key, {(x, y): state}, name, width, height]
      errors = []    # [node, k, state]
      outside = False

      def check_all(what):
        for f, n in fsts:
          eq(f.num_states(), n, 'states of the transducer ' + what)
        for lat, k, err, table, name, w, h in lats:
          f = fsts[k][0]
          if lat.fst is not f or errors[err][0] is not lat.error or lat.error.fst is not f:
            fail('lattice on another transducer or error node', what=what, lattice=name)
          eq(lat.error.state, errors[err][2], 'error state ' + what)
          eq([lat.alias, lat.width, lat.height, str(lat)], [name, w, h, name], 'lattice fields')
          rows = [[table.get((x, y)) for x in range(w)] for y in range(h)]
          want = '\n'.join('\t'.join('∅' if s is None else str(s) for s in r) for r in rows)
          eq(lat.states_str(), 'Lattice: %s\nStates:\n%s\n' % (name, want), 'states_str ' + what)
          want = '\n'.join('\t'.join('%s(%d,%d)' % (name, x, y) for x in range(w)) for y in range(h))
          eq(lat.nodes_str(), 'Lattice: %s\nNodes:\n%s\n' % (name, want), 'nodes_str')
      for op in ops:
        kind = op[0]
        if kind == 'new':
          _, own, share, populate, w, h = op
          name = 'lat%d' % len(lats)
          kw = {}
          if own is None or not fsts:
            pass
          else:
            k = own % len(fsts)
            kw['fst'] = fsts[k][0]
          if kw and share == 1:
            near = [i for i, e in enumerate(errors) if e[1] == k]
            if near:
              kw['error'] = errors[near[0]][0]
          elif share == 2:
            kw['error'] = lt.Node('mine')
          lat = lt.Lattice(name, w, h, populate=populate, **kw)
          if 'fst' not in kw:
            if any(lat.fst is f for f, _ in fsts):
              fail('a new lattice shares the transducer of another one')
            k = len(fsts)
            fsts.append([lat.fst, 0])
          if 'error' in kw and lat.error is not kw['error']:
            fail('error node not used')
          found = [i for i, e in enumerate(errors) if e[0] is lat.error]
          if found and not (share == 1 and 'error' in kw):
            fail('a new lattice shares the error node of another one')
          if not found:
            errors.append([lat.error, k, fsts[k][1]])
            fsts[k][1] += 1
            found = [len(errors) - 1]
          table = {}
          if populate:
            for y in range(h):
              for x in range(w):
                table[x, y] = fsts[k][1]
                fsts[k][1] += 1
          lats.append([lat, k, found[0], table, name, w, h])
        elif kind == 'fst':
          f = pynini.Fst()
          for _ in range(op[1]):
            f.add_state()
          fsts.append([f, op[1]])
        elif lats:
          i, x, y = op[1] % len(lats), op[2], op[3]
          lat, k, err, table, name, w, h = lats[i]
          inside = 0 <= x < w and 0 <= y < h
          outside |= not inside
          node = lat.node(x, y)
          if (node is lat.error) == inside:
            fail('node', x=x, y=y)
          if inside:
            eq([node.x, node.y, node.alias, node.text], [x, y, '%s_node_%d_%d' % (name, x, y), '%s(%d,%d)' % (name, x, y)], 'node')
            eq(node.has_state(), (x, y) in table, 'has_state')
          if kind == 'assign':
            j = op[4] % len(lats)
            source = lats[j]
            if inside and source[1] == k and source[3]:
              s = sorted(source[3].values())[op[5] % len(source[3])]
              node.state = s
              table[x, y] = s
          else:
            if kind == 'state':
              got = lat.state(x, y)
            elif kind == 'of':
              got = lat.state_of(node)
            else:
              got = lat.state_of(lt.Node('free', 'free', x, y))
            if inside:
              if (x, y) not in table:
                table[x, y] = fsts[k][1]
                fsts[k][1] += 1
              eq(got, table[x, y], 'state', x=x, y=y)
            else:
              eq(got, errors[err][2], 'state outside the bounds', x=x, y=y)
        check_all('after ' + kind)
    return len(lats) > 1 and outside
  xy = st.integers(-1, 4)
  new = st.tuples(st.just('new'), st.one_of(st.none(), st.integers(0, 3)), st.integers(0, 2), st.booleans(),
                  st.integers(0, 4), st.integers(0, 4))
  fst = st.tuples(st.just('fst'), st.integers(0, 3))
  ask = st.tuples(st.sampled_from(['state', 'state', 'of', 'free']), st.integers(0, 5), xy, xy)
  assign = st.tuples(st.just('assign'), st.integers(0, 5), xy, xy, st.integers(0, 5), st.integers(0, 20))
  ctx.check('history', st.lists(st.one_of(new, new, fst, ask, ask, ask, assign).map(list), max_size=14), one,
            ctx.n(2500, 30000))
