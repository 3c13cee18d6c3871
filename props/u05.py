"""U05: character tables convert from named form without loss."""
import functools
import os
import unicodedata

from lib import brahmic as M
from lib import fst
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/utils:unicode_strings_to_tsv', '//nisaba/scripts/utils:unicode_strings_util']
for _n in sorted(M.TABLES):
  _d, _, _b = _n.rpartition('/')
  TARGETS.append('//nisaba/scripts/%s:%s' % (_d, _b))
  if M.TABLES[_n]:
    TARGETS.append('//nisaba/scripts/%s:combined_%s' % (_d, _b.replace('.tsv', '.textproto')))
RULE = ('Random tables: items whose characters are drawn from all named code points, spelled as raw '
        'text, as names cut anywhere into a declared prefix and the rest, or both, with random '
        'extra prefixes, faults (mismatch, unknown, ambiguous, empty) injected at random places; '
        'compared with a dictionary of all Unicode names. Every published table against its '
        'frozen content. Non-trivial: names are used, with a prefix or with two or more characters.')


def subs(tier):
  return ['items', 'names', 'files', 'tool', 'tables']


@functools.lru_cache(None)
def names():
  out = {}
  for cp in range(0x110000):
    n = unicodedata.name(chr(cp), None)
    if n:
      out[n] = chr(cp)
  return out


def resolve(prefixes, suffix):
  """All (character, full name) that a prefix, or none, makes of the suffix."""
  hits = []
  for p in sorted(set(prefixes)) + ['']:
    n = (p + ' ' + suffix).lstrip()
    c = names().get(n.upper())
    if c is None:
      try:
        c = unicodedata.lookup(n)          # aliases and named sequences
      except KeyError:
        continue
      if len(c) == 1 and unicodedata.category(c) == 'Cc':
        continue
    hits.append(c)
  return hits


def side(prefixes, uname, raw):
  """The string, or None for an error."""
  if raw and not uname:
    return raw
  out = ''
  for n in uname:
    hits = resolve(prefixes, n)
    if len(hits) != 1:
      return None
    out += hits[0]
  if raw and raw != out:
    return None
  return out


def item_model(up, tp, it):
  uname, raw, tu, tr = it
  if not uname and not raw:
    return None
  src = side(up, uname, raw)
  if src is None:
    return None
  if not tu and not tr:
    return (src, None)
  dst = side(tp or up, tu, tr)
  return None if dst is None else (src, dst)


def c_is_computed(name):
  """Names made from the code point are not looked up in lower case."""
  return any(x in name for x in ('IDEOGRAPH', 'HANGUL', 'SYLLABLE'))


POOL = None


def pool():
  """Characters with names, mostly of scripts the library is about."""
  global POOL
  if POOL is None:
    near = [c for c in map(chr, list(range(0x600, 0xe00)) + list(range(0x41, 0x250)) + list(
        range(0x1e00, 0x1f00)) + list(range(0x200b, 0x2010)) + list(range(0xa800, 0xac00)))
            if unicodedata.name(c, None)]
    POOL = (near, sorted(names().values()))
  return POOL


def run(ctx):
  from nisaba.scripts.utils import unicode_strings_pb2 as pb
  from nisaba.scripts.utils import unicode_strings_util as us
  near, everything = pool()
  char = st.one_of(st.sampled_from(near), st.sampled_from(near), st.sampled_from(everything))

  @st.composite
  def table(draw, max_items=4):
    up, tp = [], []
    to_own = draw(st.booleans())
    def one_side(prefs):
      w = draw(st.lists(char, min_size=1, max_size=4))
      mode = draw(st.integers(0, 4))
      raw = ''.join(w)
      if mode == 0:
        return [], raw
      un = []
      for c in w:
        words = unicodedata.name(c).split(' ')
        k = draw(st.integers(0, len(words) - 1))
        if k:
          p = ' '.join(words[:k])
          if p not in prefs and len(prefs) < 3:
            prefs.append(p)
          if p not in prefs:
            k = 0
        n = ' '.join(words[k:])
        un.append(n.lower() if draw(st.integers(0, 9)) == 0 and not c_is_computed(
            unicodedata.name(c)) else n)
      return un, raw if mode < 3 else ''
    items = []
    for _ in range(draw(st.integers(1, max_items))):
      a = one_side(up)
      b = one_side(tp if to_own else up) if draw(st.booleans()) else ([], '')
      items.append([a[0], a[1], b[0], b[1]])
    fault = draw(st.integers(0, 12))
    it = items[draw(st.integers(0, len(items) - 1))]
    if fault == 0:
      it[1] = (it[1] or '') + draw(char)
    elif fault == 1:
      it[0] = it[0] + ['NO SUCH LETTER']
    elif fault == 2:
      it[0], it[1] = [], ''
    elif fault == 3:
      it[2] = it[2] + ['LETTER A']
    elif fault == 4:
      up += ['LATIN SMALL LETTER', 'LATIN CAPITAL LETTER']
      it[0] = it[0] + ['X']
    elif fault == 5:
      it[2] = it[2] + ['TAMIL SYLLABLE NNNAI']
    elif fault == 6:
      it[0] = it[0] + ['LINE FEED']
    if draw(st.integers(0, 5)) == 0 and up:
      up.append(up[0])
    return [up, tp, items]

  def make(t):
    p = pb.UnicodeStrings(uname_prefix=t[0], to_uname_prefix=t[1])
    for u, r, tu, tr in t[2]:
      p.item.add(uname=u, raw=r, to_uname=tu, to_raw=tr)
    return p

  def call(up, tp, item):
    try:
      with sut('convert_item', allow=ValueError):
        s, d = us.convert_item(up, tp, item)
        return (s, d or None)
    except ValueError:
      return None

  def items(t):
    p = make(t)
    nt = False
    for it, item in zip(t[2], p.item):
      want = item_model(t[0], t[1], it)
      eq(call(list(t[0]), list(t[1]), item), want, 'converted item (None: rejected)', item=it,
         prefixes=t[0], to_prefixes=t[1])
      ctx.label('rejected' if want is None else 'converted')
      nt |= bool(t[0] or t[1]) and len(it[0]) + len(it[2]) > 1
    return nt

  def textproto(t):
    from google.protobuf import text_format
    return text_format.MessageToString(make(t), as_utf8=True)

  path = os.path.join(ctx.scratch or '.', 't.textproto')

  if ctx.sub == 'items':
    ctx.check('items', table(), items, ctx.n(3500, 50000))
  elif ctx.sub == 'names':
    def named(c):
      words = unicodedata.name(c).split(' ')
      for k in range(len(words)):
        p, s = [' '.join(words[:k])] if k else [], ' '.join(words[k:])
        hits = resolve(p, s)
        try:
          with sut('name_to_char', allow=ValueError):
            got = us.name_to_char(p, s)
        except ValueError:
          got = None
        want = (hits[0], unicodedata.name(hits[0], got and got[1])) if len(hits) == 1 else None
        if got is not None and want is not None:
          eq(got[0], want[0], 'character named', prefixes=p, name=s)
        else:
          eq(got, want, 'character named', prefixes=p, name=s)
      return len(words) > 1
    near_set = set(near)
    ctx.enum('near', near, named)
    far_ = [c for c in everything if c not in near_set]
    ctx.enum('all', far_ if ctx.thorough else far_[ctx.seed % 16::16], named)
  elif ctx.sub == 'files':
    def files(t):
      with open(path, 'w', encoding='utf8') as f:
        f.write(textproto(t))
      want = [item_model(t[0], t[1], it) for it in t[2]]
      try:
        with sut('read_textproto', allow=ValueError):
          p = us.read_textproto(path)
        got = [(i.raw, i.to_raw or None) for i in p.item]
        eq([list(i.uname) for i in p.item], [i[0] for i in t[2]], 'names are kept')
      except ValueError:
        got = None
      eq(got, None if None in want else want, 'table read from a file (None: rejected)', table=t)
      return got is not None and len(t[2]) > 1
    ctx.check('files', table(), files, ctx.n(2000, 30000))
  elif ctx.sub == 'tool':
    from absl import flags
    from nisaba.scripts.utils import unicode_strings_to_tsv as tool
    out = os.path.join(ctx.scratch, 't.tsv')
    def convert(t):
      with open(path, 'w', encoding='utf8') as f:
        f.write(textproto(t))
      flags.FLAGS.unparse_flags()
      flags.FLAGS(['tool', '--input_text_proto=' + path, '--output_tsv=' + out])
      want = [item_model(t[0], t[1], it) for it in t[2]]
      try:
        with sut('the converter', allow=ValueError):
          tool.main(['tool'])
        got = []
        for line in open(out, encoding='utf8', newline='').read().split('\n')[:-1]:
          if not line.startswith('# Auto'):
            a, tab, b = line.partition('\t')
            got.append((a, b if tab else None))
      except ValueError:
        got = None
      eq(got, None if None in want else want, 'converted table (None: rejected)', table=t)
      return got is not None and len(t[2]) > 1
    ctx.check('tool', table(), convert, ctx.n(2000, 30000))
  else:
    def published(name):
      base = os.path.join(fst.ROOT, 'nisaba/scripts', name)
      rows = [l.rstrip('\n').split('\t') for l in open(base, encoding='utf8')
              if l.strip() and not l.startswith('#')]
      eq(rows, M.TABLES[name], 'published table ' + name)
      d, _, b = base.rpartition('/')
      src = '%s/combined_%s' % (d, b.replace('.tsv', '.textproto'))
      if not rows or not os.path.exists(src):
        return False
      with sut('read_textproto'):
        p = us.read_textproto(src)
      got = [[i.raw, i.to_raw] if i.to_raw else [i.raw] for i in p.item]
      eq(got, M.TABLES[name], 'published table ' + name)
      for i in p.item:
        for c in i.raw + i.to_raw:
          if unicodedata.name(c, None) is None:
            fail('a published table has a character without a name', table=name, raw=i.raw)
      return len(got) > 1
    ctx.enum('tables', sorted(M.TABLES), published)
