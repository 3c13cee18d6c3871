"""U02: cascading rules act one after another in file order."""
import os

from lib import brahmic as M
from lib import fst
from lib.pbt import eq, fail, sut, st
from props import u01

TARGETS = ['//nisaba/scripts/utils:rule']
RULE = ('Random rule lists (patterns may repeat, feed and bleed each other) written to a file with '
        'comments, blank lines, escapes, digits and quotation marks, compiled with '
        'fst_from_cascading_rule_file and applied to random texts; compared with applying '
        'str.replace rule by rule. Non-trivial: at least two rules act, one on the output of '
        'another or in an order that matters.')


def subs(tier):
  return ['cascade', 'file', 'plain']


def cascade(text, rules):
  n = 0
  for a, b in rules:
    new = text.replace(a, b)
    n += new != text
    text = new
  return text, n


def esc(s):
  return ''.join('\\' + c if c in '#\\' else c for c in s)


def run(ctx):
  from nisaba.scripts.utils import rule as rl
  from pynini.lib import byte
  path = os.path.join(ctx.scratch, 'rules.tsv')

  def write(rules, flags):
    with open(path, 'w', encoding='utf8') as f:
      for i, (a, b) in enumerate(rules):
        k = (flags >> (2 * i)) & 3
        if k == 1:
          f.write('# %s\t%s\n' % (b, a))
        if k == 2:
          f.write('\n')
        f.write('%s\t%s' % (esc(a), esc(b)))
        f.write('\t# note\n' if False else '\n')

  def one(case):
    rules, texts, flags = case
    write(rules, flags)
    with sut('rules_from_string_file'):
      got = [tuple(r) for r in rl.rules_from_string_file(path)]
    eq(got, [tuple(r) for r in rules], 'rules read from the file', file=open(path).read())
    if ctx.sub == 'file':
      return len(rules) > 1
    with sut('fst_from_cascading_rule_file'):
      f = rl.fst_from_cascading_rule_file(path, byte.BYTE)
    nt = False
    for t in texts:
      with sut('rewriting'):
        out = set(fst.outputs(t, f, limit=3))
      want, n = cascade(t, rules)
      eq(out, {want}, 'cascade', text=t, rules=rules)
      nt |= n > 1
    return nt

  if ctx.sub == 'cascade':
    al = u01.ALPHA[:5]
  elif ctx.sub == 'plain':
    al = ['a', 'b']
  else:
    al = u01.ALPHA + list('0123456789.-+"\'#\\ ,;:') + ['True', 'NA', 'nan', 'e5', '१']
  rules = st.lists(st.tuples(u01.pat(1, 3, al), u01.pat(0, 3, al)).map(list), min_size=1, max_size=6)
  if ctx.sub == 'file':
    # A field of blanks alone, or blank edges, are not rules anyone writes.
    ok = lambda x: x == x.strip()  # noqa: E731
    rules = rules.filter(lambda rs: all(ok(a) and ok(b) and a for a, b in rs))
    case = st.tuples(rules, st.just([]), st.integers(0, 4095))
  else:
    case = rules.flatmap(lambda rs: st.tuples(
        st.just(rs), st.lists(u01.text_for(rs, 7), min_size=1, max_size=6), st.integers(0, 4095)))
  ctx.check('rules', case, one, ctx.n(*((3000, 40000) if ctx.sub == 'file' else (900, 12000))))

  if ctx.sub == 'file':
    def missing(name):
      try:
        rl.fst_from_cascading_rule_file(os.path.join(ctx.scratch, 'none', name), byte.BYTE)
      except OSError:
        return True
      except Exception as e:  # pylint: disable=broad-except
        fail('a missing file raised %s' % type(e).__name__, error=str(e)[:100])
      fail('a missing file is not an error', name=name)
    ctx.enum('missing', ['x.tsv', 'y', 'nfc.tsv'], missing)
