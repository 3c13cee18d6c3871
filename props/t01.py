"""T01: the multi-reference error rate is an optimal transport cost."""
import contextlib
import io
import itertools
import json
import math
import os

TARGETS = ['//nisaba/translit/tools:' + n for n in ('emd_cer', 'calculate_emd_cer')]
RULE = ('Random weighted sets of strings (up to 6 by 6, masses in units of 1/N) with random, edit-distance or shared-string '
        'costs, compared with an exact min-cost flow in integers, plus brute force over all matchings for small N; the order '
        'of the entries, scaling of the costs, equal sets, and whole files through the command line. Non-trivial: at least '
        'two hypotheses and two references with a positive cost.')
TOL = 2e-4
# pyemd rounds masses to millionths of the total; these totals stay exact. Outside them it can loop for ever when every
# distance is zero, which takes duplicated strings and is not this repository's code.
TOTALS = [1, 2, 4, 5, 8, 10, 16, 20, 25, 32, 40, 50, 64]


def subs(tier):
  return ['cost', 'matching', 'equal', 'order', 'file']


def min_cost(a, b, dist):
  """Minimum cost of moving integer masses a to b (successive shortest paths)."""
  n, m = len(a), len(b)
  left, right = list(a), list(b)
  flow = [[0] * m for _ in range(n)]
  cost = 0
  while sum(left):
    # Bellman-Ford over the residual graph, from rows with mass left.
    inf = float('inf')
    dr = [0 if x else inf for x in left]
    dc = [inf] * m
    pr, pc = [None] * n, [None] * m
    changed = True
    while changed:
      changed = False
      for i, j in itertools.product(range(n), range(m)):
        if dr[i] + dist[i][j] < dc[j]:
          dc[j], pc[j], changed = dr[i] + dist[i][j], i, True
        if flow[i][j] and dc[j] - dist[i][j] < dr[i]:
          dr[i], pr[i], changed = dc[j] - dist[i][j], j, True
    j = min((j for j in range(m) if right[j]), key=lambda j: dc[j])
    path, amount, end = [], right[j], j
    while True:
      i = pc[j]
      path.append((i, j, 1))
      if pr[i] is None:
        amount = min(amount, left[i])
        break
      j = pr[i]
      path.append((i, j, -1))
      amount = min(amount, flow[i][j])
    for i2, j2, sign in path:
      flow[i2][j2] += sign * amount
      cost += sign * amount * dist[i2][j2]
    left[i] -= amount
    right[end] -= amount
  return cost


def edit_distance(a, b):
  row = list(range(len(b) + 1))
  for i, x in enumerate(a, 1):
    prev, row[0] = row[0], i
    for j, y in enumerate(b, 1):
      prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
  return row[-1]


def block(a, b, dist, lens):
  """The JSON line calculate_error_rate would write: hypotheses, then references."""
  n, m = len(a), len(b)
  mat = [[0.0] * (n + m) for _ in range(n + m)]
  for i, j in itertools.product(range(n), range(m)):
    mat[i][n + j] = mat[n + j][i] = float(dist[i][j])
  total = sum(a)
  return {'p1': [x / total for x in a] + [0.0] * m, 'p2': [0.0] * n + [x / total for x in b],
          'D': mat, 'L': [0.0] * n + [float(x) for x in lens]}


def run(ctx):
  from lib.pbt import eq, fail, st
  from nisaba.translit.tools import emd_cer

  def close(got, want, what, **kw):
    if not (math.isfinite(float(got)) and abs(float(got) - want) <= TOL * max(1, abs(want))):
      fail(what, got=float(got), want=want, **kw)

  def masses(draw, size, total):
    cuts = sorted(draw(st.lists(st.integers(0, total), min_size=size - 1, max_size=size - 1)))
    return [y - x for x, y in zip([0] + cuts, cuts + [total])]

  @st.composite
  def problem(draw, top=6, units=60):
    n, m, total = draw(st.integers(1, top)), draw(st.integers(1, top)), draw(st.sampled_from([x for x in TOTALS if x <= units]))
    a, b = masses(draw, n, total), masses(draw, m, total)
    if draw(st.booleans()):
      word = st.text('abক', max_size=6)
      hyp, ref = [draw(word) for _ in a], [draw(word) for _ in b]
      dist, lens = [[edit_distance(x, y) for y in ref] for x in hyp], [len(x) for x in ref]
    else:
      dist = [[draw(st.integers(0, 12)) for _ in b] for _ in a]
      lens = [draw(st.integers(0, 20)) for _ in b]
    if not any(map(any, dist)):
      dist[0][0] = 1
    return a, b, dist, lens

  def test(case, want_cost):
    a, b, dist, lens = case
    total = sum(a)
    got = emd_cer.emd_error_and_length(block(*case))
    eq(len(got), 2, 'number of results', case=case)
    close(got[0], want_cost / total, 'transport cost', case=case)
    close(got[1], sum(x * y for x, y in zip(b, lens)) / total, 'expected reference length', case=case)
    return want_cost > 0 and len(a) > 1 and len(b) > 1

  if ctx.sub == 'cost':
    ctx.check('cost', problem(), lambda c: test(c, min_cost(*c[:3])), ctx.n(1500, 40000))

    @st.composite
    def scaled(draw):
      case = draw(problem(4, 20))
      return case, draw(st.sampled_from([0.5, 2.0, 10.0]))

    def scale(case):
      (a, b, dist, lens), k = case
      base = block(a, b, dist, lens)
      got = emd_cer.emd_error_and_length(base)
      up = emd_cer.emd_error_and_length(dict(base, D=[[x * k for x in row] for row in base['D']]))
      close(up[0], float(got[0]) * k, 'cost with scaled distances', case=case)
      close(up[1], float(got[1]), 'length with scaled distances', case=case)
      return got[0] > 0
    ctx.check('scale', scaled(), scale, ctx.n(300, 5000))

    def parts(case):
      base = block(*case)
      got = emd_cer.earth_movers_distance(base)
      eq(len(got), 3, 'number of results', case=case)
      close(got[0], min_cost(*case[:3]) / sum(case[0]), 'transport cost', case=case)
      flow = [[float(x) for x in row] for row in got[1]]
      size = len(base['p1'])
      for i in range(size):
        close(sum(flow[i]), base['p1'][i], 'mass moved away', case=case, index=i)
        close(sum(row[i] for row in flow), base['p2'][i], 'mass received', case=case, index=i)
      if any(x < -1e-9 for row in flow for x in row):
        fail('negative flow', case=case)
      close(sum(flow[i][j] * base['D'][i][j] for i in range(size) for j in range(size)), float(got[0]),
            'cost of the flow', case=case)
      eq([float(x) for x in got[2]], base['L'], 'lengths', case=case)
      return len(case[0]) > 1 and len(case[1]) > 1
    ctx.check('flow', problem(), parts, ctx.n(300, 5000))
  elif ctx.sub == 'matching':
    def brute(case):
      a, b, dist, _ = case
      left = [i for i, x in enumerate(a) for _ in range(x)]
      right = [j for j, x in enumerate(b) for _ in range(x)]
      want = min(sum(dist[i][j] for i, j in zip(left, p)) for p in set(itertools.permutations(right)))
      eq(min_cost(a, b, dist), want, 'ORACLE')
      return test(case, want)
    ctx.check('brute', problem(4, 6), brute, ctx.n(400, 8000))
  elif ctx.sub == 'equal':
    @st.composite
    def strings(draw):
      words = draw(st.lists(st.text('abcক', max_size=7), min_size=1, max_size=6, unique=True))
      w = [draw(st.integers(1, 9)) for _ in words]
      return words, w, draw(st.permutations(list(range(len(words)))))

    def same(case):
      words, w, perm = case
      ref, rw = [words[i] for i in perm], [w[i] for i in perm]
      dist = [[edit_distance(x, y) for y in ref] for x in words]
      test((w, rw, dist, [len(x) for x in ref]), 0)
      return len(words) > 1
    ctx.check('same', strings(), same, ctx.n(500, 8000))

    @st.composite
    def shared(draw):
      words = draw(st.lists(st.text('abc', min_size=1, max_size=6), min_size=2, max_size=6, unique=True))
      total = draw(st.sampled_from([x for x in TOTALS if 1 < x <= 40]))
      return words, masses(draw, len(words), total), masses(draw, len(words), total)

    def one_list(case):
      # Both distributions over the same list of strings.
      words, a, b = case
      dist = [[edit_distance(x, y) for y in words] for x in words]
      total = sum(a)
      line = {'p1': [x / total for x in a], 'p2': [x / total for x in b], 'D': dist, 'L': [len(x) for x in words]}
      got = emd_cer.emd_error_and_length(line)
      close(got[0], min_cost(a, b, dist) / total, 'transport cost', case=case)
      close(got[1], sum(x * len(y) for x, y in zip(b, words)) / total, 'expected reference length', case=case)
      return a != b
    ctx.check('shared', shared(), one_list, ctx.n(500, 8000))
  elif ctx.sub == 'order':
    @st.composite
    def permuted(draw):
      case = draw(problem(5, 30))
      size = len(case[0]) + len(case[1])
      return case, draw(st.permutations(list(range(size))))

    def order(case):
      base, perm = block(*case[0]), case[1]
      line = {k: [base[k][i] for i in perm] for k in ('p1', 'p2', 'L')}
      line['D'] = [[base['D'][i][j] for j in perm] for i in perm]
      got = emd_cer.emd_error_and_length(line)
      want = emd_cer.emd_error_and_length(base)
      close(got[0], float(want[0]), 'cost in another order', case=case)
      close(got[1], float(want[1]), 'length in another order', case=case)
      close(got[0], min_cost(*case[0][:3]) / sum(case[0][0]), 'transport cost', case=case)
      return perm != sorted(perm)
    ctx.check('order', permuted(), order, ctx.n(500, 8000))
  else:
    from absl import flags
    from nisaba.translit.tools import calculate_emd_cer
    if not flags.FLAGS.is_parsed():
      flags.FLAGS(['prog'])
    path = os.path.join(ctx.scratch, 'in.json')

    def whole(cases):
      cases = [c for c in cases if sum(x * y for x, y in zip(c[1], c[3]))]
      if not cases:
        return False
      with open(path, 'w', encoding='utf8') as fh:
        for c in cases:
          fh.write(json.dumps(block(*c)) + '\n')
      flags.FLAGS.json_path = path
      out = io.StringIO()
      with contextlib.redirect_stdout(out):
        calculate_emd_cer.main(['prog'])
      rows = [x.split('\t') for x in out.getvalue().splitlines()]
      eq(len(rows), len(cases) + 3, 'number of lines', cases=cases)
      edits = length = 0
      for row, c in zip(rows, cases):
        want = min_cost(*c[:3]) / sum(c[0])
        size = sum(x * y for x, y in zip(c[1], c[3])) / sum(c[1])
        edits, length = edits + want, length + size
        eq(len(row), 5, 'number of columns', cases=cases)
        close(row[0], size, 'reference length', cases=cases)
        close(row[1], want, 'edits', cases=cases)
        eq(row[2:4], ['0', '0'], 'unused columns', cases=cases)
        close(row[4], want / size, 'error rate', cases=cases)
      eq([x[0] for x in rows[-3:]], ['Total edits:', 'Total reference length:', 'Overall CER:'], 'summary', cases=cases)
      for row, want in zip(rows[-3:], (edits, length, edits / length)):
        close(row[1], want, row[0], cases=cases)
      return len(cases) > 1
    ctx.check('file', st.lists(problem(4, 20), min_size=1, max_size=6), whole, ctx.n(200, 3000))
