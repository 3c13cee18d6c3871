"""U04: the text API treats every string literally."""
import os
import warnings

from lib import gen
from lib.pbt import eq, fail, raises, sut, st

TARGETS = ['//nisaba/scripts/utils:far_lib', '//nisaba/scripts/utils:file']
RULE = ('Archives built in a scratch directory from random acceptors, rewrites and finite maps over '
        'characters that include brackets, backslashes, control and astral characters; random '
        'sequences of look-ups, applications and acceptance tests through far.Far, compared with '
        'the definition of the rules as Python sets and functions. Non-trivial: the sequence '
        'contains a repeated look-up and both an accepted and a rejected text, or the text has a '
        'special character.')
SPECIAL = list('[]\\ab') + ['\n', '\t', '\x01', '\x7f', 'क', 'é', '😀', '[1]', '[0x61]', '\\[',
                            '[EOS]', '\\\\', ']']


def subs(tier):
  return ['history', 'literal', 'open']


def text(n=4):
  return st.lists(st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL), gen.foreign(1)),
                  max_size=n).map(''.join)


def run(ctx):
  import pynini
  from nisaba.scripts.utils import far as fr
  from nisaba.scripts.utils import file as uf
  from pynini.lib import byte
  count = [0]
  lit = lambda s: pynini.accep(pynini.escape(s))  # noqa: E731
  BYTE = pynini.union(*['[%d]' % i for i in range(1, 256)]).optimize()

  def build(rules):
    """rules: [name, kind, data]; returns a fresh path."""
    count[0] += 1
    path = os.path.join(ctx.scratch, 'g%d.far' % count[0])
    with pynini.Far(path, 'w') as f:
      for name, kind, data in sorted(rules):
        if kind == 'set':
          g = pynini.union(*[lit(x) for x, _ in data])
        elif kind == 'map':
          g = pynini.union(*[pynini.cross(lit(a), lit(b)) for a, b in dict(data).items()])
        elif kind == 'rewrite':
          g = pynini.cdrewrite(pynini.cross(lit(data[0][0] or 'a'), lit(data[0][1])), '', '',
                               BYTE.star)
        else:
          g = pynini.closure(BYTE)
        f.add(name, g.optimize())
    return path

  def want_apply(kind, data, t):
    if kind == 'set':
      return t if t in [x for x, _ in data] else None
    if kind == 'map':
      return dict(map(tuple, data)).get(t)
    if kind == 'rewrite':
      return t.replace(data[0][0] or 'a', data[0][1])
    return t

  NAMES = ['A', 'B', 'AB', 'RULE_X', 'TO_A']
  rule = st.tuples(st.sampled_from(NAMES), st.sampled_from(['set', 'map', 'rewrite', 'any']),
                   st.lists(st.tuples(text(3), text(3)).map(list), min_size=1, max_size=4,
                            unique_by=lambda p: p[0])).map(list)

  def clean(s):
    return s.replace('\0', '')

  def history(case):
    rules, ops = case
    path = build(rules)
    arch = fr.Far(path)
    defs = {n: (k, d) for n, k, d in rules}
    seen, nt, verdicts = {}, False, set()
    for name, op, i, t in ops:
      k, d = defs.get(name, (None, None))
      if k is None:
        if not raises(KeyError, arch.Fst, name):
          fail('an unknown rule is not reported', rule=name)
        continue
      # Half of the texts come from the rule itself.
      if i >= 0:
        t = (d[i % len(d)][0] + t) if k == 'rewrite' else d[i % len(d)][0]
      with sut('Fst(%s)' % name):
        w = arch.Fst(name)
      nt |= name in seen
      seen[name] = w
      want = want_apply(k, d, t)
      if op == 'apply':
        try:
          with sut('ApplyOnText', allow=fr.FstInputError):
            got = w.ApplyOnText(t)
        except fr.FstInputError:
          got = None
        eq(got, want, 'ApplyOnText (None: input error) of a %s rule' % k, text=t, data=d)
      else:
        with warnings.catch_warnings(record=True) as rec:
          warnings.simplefilter('always')
          with sut('AcceptText'):
            got = w.AcceptText(t)
        eq(got, want is not None, 'AcceptText of a %s rule' % k, text=t, data=d)
        acceptor = k in ('set', 'any') or all(a == b for a, b in d) and k == 'map'
        warned = any(issubclass(r.category, RuntimeWarning) for r in rec)
        if warned and acceptor and k != 'map':
          fail('an acceptor is reported as a transducer', rule=k, data=d)
        if not warned and k == 'map' and any(a != b for a, b in d):
          fail('a transducer is not reported by AcceptText', rule=k, data=d)
      verdicts.add(want is not None)
    os.remove(path)
    return nt and len(verdicts) == 2

  op = st.tuples(st.sampled_from(NAMES + ['A', 'B', 'NONE', 'a']), st.sampled_from(['apply', 'accept']),
                 st.integers(-4, 3), text(3)).map(list)
  if ctx.sub == 'history':
    ctx.check('history', st.tuples(
        st.lists(rule, min_size=1, max_size=4, unique_by=lambda r: r[0]),
        st.lists(op, min_size=3, max_size=10)), history, ctx.n(2000, 30000))
  elif ctx.sub == 'literal':
    any_ = fr.Far(build([['A', 'any', [['', '']]]])).Fst('A')
    none = fr.Far(build([['A', 'set', [['zzz', '']]]])).Fst('A')
    def one(t):
      t = clean(t)
      with sut('far API'):
        eq(any_.ApplyOnText(t), t, 'identity')
        eq(any_.AcceptText(t), True, 'everything is accepted', text=t)
        eq(none.AcceptText(t), t == 'zzz', 'not in the domain', text=t)
      if t != 'zzz' and not raises(fr.FstInputError, none.ApplyOnText, t):
        fail('a text outside the domain is not an input error', text=t)
      return any(c in '[]\\' for c in t)
    ctx.check('literal', st.one_of(text(6), st.text(max_size=6).filter(
        lambda t: not any(0xd800 <= ord(c) < 0xe000 for c in t))), one, ctx.n(4000, 60000))
    ctx.enum('bmp', (chr(c) for c in range(1, 0x10000) if not 0xd800 <= c < 0xe000 and (
        c < 0x600 or ctx.thorough or c % 8 == ctx.seed % 8)), one)
  else:
    import pathlib
    def opened(case):
      rules, name, tt = case
      d = pathlib.Path(ctx.scratch) / 'd'
      d.mkdir(exist_ok=True)
      path = build(rules)
      suffix = {'byte': '', 'utf8': '_utf8'}[tt]
      dest = d / ('x%s.far' % suffix)
      other = d / ('x%s.far' % {'byte': '_utf8', 'utf8': ''}[tt])
      if other.exists():
        other.unlink()
      os.replace(path, dest)
      default = pynini.accep('default')
      have = {n for n, _, _ in rules}
      with sut('OpenFstFromFarSafe'):
        f = uf.OpenFstFromFarSafe(d, 'x', tt, name.lower(), default)
        missing = uf.OpenFstFromFarSafe(d, 'y', tt, name, default)
        wrong = uf.OpenFstFromFarSafe(d, 'x', 'byte' if tt == 'utf8' else 'utf8', name, default)
      for g in (missing, wrong):
        eq(g.string(), 'default', 'no such archive gives the default')
      if name in have:
        with sut('OpenFstFromFar'):
          g = uf.OpenFstFromFar(d, 'x', tt, name)
        if not pynini.isomorphic(f, g):
          fail('two ways of opening a rule differ', rule=name)
        k, data = [(k, v) for n, k, v in rules if n == name][0]
        for t in [x for x, _ in data]:
          want = want_apply(k, data, t)
          lat = pynini.compose(lit(t), f)
          got = None if lat.start() == -1 else pynini.shortestpath(lat).string()
          eq(got, want, 'the rule opened is the one named', rule=name, text=t)
      else:
        eq(f.string(), 'default', 'no such rule gives the default', rule=name)
        if not raises(KeyError, uf.OpenFstFromFar, d, 'x', tt, name):
          fail('an unknown rule is not reported', rule=name)
      return len(rules) > 1
    ctx.check('open', st.tuples(st.lists(rule, min_size=1, max_size=4, unique_by=lambda r: r[0]),
                                st.sampled_from(NAMES), st.sampled_from(['byte', 'utf8'])),
              opened, ctx.n(800, 10000))
