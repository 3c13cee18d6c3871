"""N14: sounds and characters are built from their parts, as the phone table says."""
import re

from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/natural_translit/phonology:phoneme_inventory',
           '//nisaba/scripts/natural_translit/latin:ltn_inventory']
RULE = ('Every row of the published phone table is compared with the inventory. Random histories build '
        'sounds from sounds (suffixes, qualifiers, diphthongs, affricates, clicks, imports, nested '
        'compositions) next to a model of plain strings and lists, and every sound made so far is '
        'compared after every step; random lists of sounds and of characters are turned into '
        'inventories and grammars, which are applied to random words and compared with string '
        'replacement. Non-trivial: a sound built from built sounds, a word the grammar changes.')

TABLE = '/repo/nisaba/scripts/natural_translit/phonology/docs/phon_table.md'
QUAL = {'TOP': ('t', 'top'), 'HGH': ('h', 'high'), 'MDL': ('m', 'middle'), 'LOW': ('w', 'low'), 'BTM': ('b', 'bottom'),
        'RSN': ('r', 'rising'), 'FLN': ('f', 'falling'), 'TRP': ('k', 'interrupt')}
KIND = {'stress': ('STR', '*'), 'pitch': ('TPT', '^'), 'contour': ('TCN', '&'), 'intonation': ('INT', '!'),
        'duration': ('DUR', ':')}
FTRS = ['vowel', 'stop', 'voiced', 'voiceless', 'dental', 'nasal']
TXN = ['a', 'b', 'ab', 'i', 'k', 'kh', 'sh', 'ng', 'ee']
IPA = ['', 'a', 'ʃ', 'ŋ', 'i̞', 'kʰ', '̥', 'ab']
TRS = ['`a`', '`b`', '`s_sh`', '`k``y`', '`DEL`', '']
KEYS = ['base', 'psa', 'semi', 'devoiced', 'affricate']


def subs(tier):
  return ['table', 'phones1', 'phones2', 'grammars', 'chars', 'latin']


def text(fst):
  """The string of a one-path acceptor; None if there is none or are several."""
  if fst.start() < 0:
    return None
  out = sorted(set(fst.copy().paths().ostrings()))
  return out[0] if len(out) == 1 else None


def table(ctx):
  from nisaba.scripts.natural_translit.phonology import modify_phon as mod
  from nisaba.scripts.natural_translit.phonology import phoneme_inventory as pi
  rows = {}
  for line in open(TABLE, encoding='utf8').read().split('\n')[2:]:
    if line:
      c = [x.strip() for x in re.split(r' (?<!\\)\| ', line)]
      rows[c[0]] = c
  qualified = [a for a in rows if a.startswith('DUR')]
  phones = {x.alias: x for x in pi.PHONEMES}

  def whole(_):
    eq(sorted(phones), sorted(set(rows) - set(qualified)), 'sounds of the inventory')
    eq(len(pi.PHONEMES), len(phones), 'number of sounds')
    eq([x.alias for x in pi.PHON_INVENTORY], [x.alias for x in pi.PHONEMES], 'sounds of the inventory of sounds')
    eq(len(pi.PHONEME_INVENTORY), len(phones) + 2, 'acceptors of the inventory')
    parts = pi.FEATURE + pi.VOWEL + pi.CONSONANT + pi.SUPRASEGMENTAL
    eq([x.alias for x in parts], [x.alias for x in pi.PHONEMES], 'the parts of the inventory')
    return True
  ctx.enum('whole', [0], whole)

  def plain(tr):
    tr = text(tr)
    if tr is None:
      return None
    return ''.join('' if u == 'DEL' else u.removeprefix('s_') for u in re.findall('`([^`]*)`', tr))

  def one(alias):
    _, txn, ph, base, final, cmp, ipa, ftr = rows[alias]
    with sut('lookup'):
      x = getattr(mod.MOD, alias) if alias in qualified else phones[alias]
      if alias not in qualified:
        if getattr(pi.PHON_INVENTORY, alias) is not x:
          fail('lookup in the inventory of sounds', alias=alias)
        eq(text(getattr(pi.PHONEME_INVENTORY, alias)), ph, 'lookup in the inventory of acceptors', alias=alias)
    eq([x.alias, x.txn, text(x.ph)], [alias, txn, ph], 'names', alias=alias)
    eq(x.ipa, ipa.strip('`').strip(' ').replace('\\|', '|'), 'IPA', alias=alias)
    if alias in qualified:
      ftr = ftr.replace('long', 'duration')  # The name in the README.
    eq(list(x.ftr), [f for f in ftr.split(', ') if f], 'features', alias=alias)
    eq([c.alias for c in x.cmp], cmp.split(', ') if cmp else [alias], 'components', alias=alias)
    eq(plain(x.tr_dict['base']), base.removeprefix('base: '), 'base transliteration', alias=alias)
    key, _, want = final.partition(': ')
    if final:
      eq(list(x.tr_dict)[-1], key, 'last key', alias=alias)
      eq(plain(x.tr_dict[key]), want, 'final transliteration', alias=alias, key=key)
    for k, v in x.tr_dict.items():
      if plain(v) is None:
        fail('a transliteration that is no string', alias=alias, key=k)
    return True
  ctx.enum('row', sorted(rows), one)


class Model:
  """A sound as plain data."""

  def __init__(self, alias, txn, ftr, ph, ipa, tr, cmp=None):
    self.alias, self.txn, self.ftr, self.ph, self.ipa, self.tr = alias, txn, ftr, ph, ipa, tr
    self.cmp = [self] if cmp is None else cmp
    self.imported = False

  def show(self):
    return [self.alias, self.txn, list(self.ftr), self.ph, self.ipa, dict(self.tr)]


def shown(x):
  return [x.alias, x.txn, list(x.ftr), text(x.ph), x.ipa, {k: text(v) for k, v in x.tr_dict.items()}]


def base_model(txn, ftr, ipa, tr, alias):
  return Model(alias or txn.upper(), txn, list(ftr), '{%s}' % txn, ipa, {'base': '`DEL`' if tr is None else tr})


def qualified_model(kind, q, ipa):
  a, t = KIND[kind]
  return base_model(t + QUAL[q][0], [kind, QUAL[q][1]], ipa, None, a + QUAL[q][0].upper())


def suffix_model(m, suf, tr, ftr=None):
  return Model(m.alias + suf.txn.upper(), m.txn + suf.txn, (m.ftr if ftr is None else ftr) + suf.ftr,
               '{%s}' % (m.txn + suf.txn), m.ipa + suf.ipa,
               {**m.tr, suf.ftr[0]: m.tr['base'] if tr is None else tr})


def compose_model(ms, ftr, tr, alt):
  cs = [c for m in ms for c in m.cmp]
  base = ''.join(c.tr['base'] for c in cs)
  return Model('_'.join(c.alias for c in cs), '+'.join(c.txn for c in cs), [ftr] + [f for c in cs for f in c.ftr],
               '{+}'.join(c.ph for c in cs), '͡'.join(c.ipa for c in cs),
               {'base': base, **{ftr: base if tr is None else tr}, **(alt or {})}, cs)


DVC = base_model('o', ['devoiced'], '̥', None, 'DVC')
NPL = base_model('e', ['nonpulmonic'], '`', None, 'NPL')


def step_strategy():
  ix = st.integers(0, 9)
  tr = st.one_of(st.none(), st.sampled_from(TRS))
  ftrs = st.lists(st.sampled_from(FTRS), max_size=3, unique=True)
  alts = st.one_of(st.none(), st.dictionaries(st.sampled_from(KEYS), st.sampled_from(TRS), max_size=2))
  some = st.lists(ix, min_size=1, max_size=3)

  def t(*a):
    return st.tuples(*a).map(list)
  return st.one_of(
      t(st.just('base'), st.sampled_from(TXN), ftrs, st.sampled_from(IPA), tr, st.sampled_from(['', '', 'X', 'Y'])),
      t(st.just('suffix'), ix, ix, tr), t(st.just('devoiced'), ix), t(st.just('nonpulmonic'), ix),
      t(st.just('compose'), some, st.sampled_from(['diph', 'x']), tr, alts),
      t(st.just('diphthong'), some, st.sampled_from(TRS), tr, tr),
      t(st.just('affricate'), some, st.sampled_from(TRS)),
      t(st.just('ls_affricate'), ix, some, st.sampled_from(TRS)),
      t(st.just('ls_click'), some, some), t(st.just('click'), ix, ix),
      t(st.just('import'), ix, st.one_of(st.none(), ftrs), alts),
      t(st.sampled_from(sorted(KIND)), st.sampled_from(sorted(QUAL)), st.sampled_from(IPA)))


def phones(ctx):
  import pynini as pyn
  from nisaba.scripts.natural_translit.phonology import modify_phon as mod
  from nisaba.scripts.natural_translit.phonology import phon as p
  from nisaba.scripts.natural_translit.utils import type_op as ty

  def fst(tr):
    return ty.UNSPECIFIED if tr is None else pyn.accep(tr)

  def one(steps):
    made, models, depth = [], [], 0
    start = [['base', 'b', ['stop', 'voiced'], 'b', '`b`', ''], ['base', 'sh', ['voiceless'], 'ʃ', None, 'Q']]
    for s in start + steps:
      op, a = s[0], s[1:]
      n = len(made)
      new, want = [], []
      with sut(op):
        if op == 'base':
          new = [p.Phon.base(a[0], list(a[1]), a[2], fst(a[3]), a[4])]
          want = [base_model(*a)]
        elif op in KIND:
          new = [getattr(mod, op)(getattr(mod.MOD, a[0]), a[1])]
          want = [qualified_model(op, *a)]
        elif op in ('suffix', 'devoiced', 'nonpulmonic'):
          i = a[0] % n
          m = models[i]
          if len(m.cmp) > 1:
            continue
          if op == 'suffix':
            j = a[1] % n
            suf = models[j]
            if not suf.ftr or len(suf.cmp) > 1:
              continue
            args = [] if a[2] is None else [fst(a[2])]
            new, want = [mod.derive_with_suffix(made[i], made[j], *args)], [suffix_model(m, suf, a[2])]
          elif op == 'devoiced':
            if 'voiced' not in m.ftr:
              continue
            k = m.ftr.index('voiced')
            new, want = [mod.devoiced(made[i])], [suffix_model(m, DVC, None, m.ftr[:k] + m.ftr[k + 1:])]
          else:
            new, want = [mod.nonpulmonic(made[i])], [suffix_model(m, NPL, None)]
        elif op == 'import':
          i = a[0] % n
          m = models[i]
          new = [p.import_phon(made[i], *([] if a[1] is None else [list(a[1])]),
                               **({} if a[2] is None else {'alt_tr_dict': {k: pyn.accep(v) for k, v in a[2].items()}}))]
          w = Model(m.alias, m.txn, m.ftr + (a[1] or []), m.ph, m.ipa, {**m.tr, **(a[2] or {})}, list(m.cmp))
          w.imported = True
          want = [w]
        else:
          lists = [[x % n for x in (y if isinstance(y, list) else [y])] for y in a if isinstance(y, (list, int))]
          if any(models[k].imported for y in lists for k in y) or any(len(models[k].cmp) > 3 for y in lists for k in y):
            continue
          P = [[made[k] for k in y] for y in lists]
          M = [[models[k] for k in y] for y in lists]
          if op == 'compose':
            alt = ty.UNSPECIFIED if a[3] is None else {k: pyn.accep(v) for k, v in a[3].items()}
            new, want = [mod.compose(P[0], a[1], fst(a[2]), alt)], [compose_model(M[0], a[1], a[2], a[3])]
          elif op == 'diphthong':
            alt = {k: v for k, v in zip(('semivowel', 'monophthong'), a[2:]) if v is not None}
            new = [mod.diphthong(P[0], fst(a[1]), fst(a[2]), fst(a[3]))]
            want = [compose_model(M[0], 'diphthong', a[1], alt)]
          elif op == 'affricate':
            new, want = [mod.affricate(P[0], fst(a[1]))], [compose_model(M[0], 'affricate', a[1], None)]
          elif op == 'ls_affricate':
            if any(len(m.cmp) > 1 for m in M[1]):
              continue
            new = mod.ls_affricate(P[0][0], P[1], fst(a[2]))
            for fric in M[1]:
              want.append(compose_model([M[0][0], fric], 'affricate', a[2], None))
              if 'voiceless' in fric.ftr:
                want.append(compose_model([M[0][0], suffix_model(fric, NPL, None)], 'affricate', a[2], None))
          elif op == 'click':
            new, want = [mod.click(P[0][0], P[1][0])], [compose_model([M[0][0], M[1][0]], 'coarticulated', None, None)]
          else:
            new = mod.ls_click(P[0], P[1])
            want = [compose_model([x, y], 'coarticulated', None, None) for x in M[0] for y in M[1]]
      eq(len(new), len(want), 'number of sounds made', op=op)
      for x, m in zip(new, want):
        eq(shown(x), m.show(), 'the sound made', op=op, args=a)
        eq([shown(c) for c in x.cmp], [c.show() for c in m.cmp], 'its components', op=op)
        if len(m.cmp) == 1 and not m.imported and x.cmp[0] is not x:
          if op not in ('compose', 'diphthong', 'affricate'):
            fail('a simple sound is its own component', op=op)
      depth += op != 'base' and any(len(m.cmp) > 1 for m in want)
      made, models = (made + new)[-12:], (models + want)[-12:]
      for x, m in zip(made, models):
        eq(shown(x), m.show(), 'a sound made before changed', op=op)
        eq([shown(c) for c in x.cmp], [c.show() for c in m.cmp], 'components of a sound made before', op=op)
    return depth > 0
  ctx.check('history', st.lists(step_strategy(), min_size=1, max_size=7), one, ctx.n(500, 8000))


def accepts(pyn, fst, s):
  return pyn.compose(pyn.accep(s), fst).start() >= 0


def outputs(pyn, s, fst):
  lat = pyn.compose(pyn.accep(s), fst)
  return sorted(set(lat.paths().ostrings())) if lat.start() >= 0 else []


def splits(s, pairs):
  """Every reading of s as a sequence of left sides, as its right sides."""
  at = [set() for _ in range(len(s) + 1)]
  at[0] = {''}
  for i in range(len(s)):
    for o, n in pairs:
      if o and at[i] and s.startswith(o, i):
        at[i + len(o)] |= {x + n for x in at[i]}
  return sorted(at[-1])


def grammars(ctx):
  import pynini as pyn
  from nisaba.scripts.natural_translit.phonology import modify_phon as mod
  from nisaba.scripts.natural_translit.phonology import phon as p

  def one(case):
    txns, ipas, trs, pair, word, mods, key = case
    simple = [p.Phon.base(t, ['vowel'], i, pyn.accep(r)) for t, i, r in zip(txns, ipas, trs)]
    for x, r in zip(simple, reversed(trs)):
      x.tr_dict['psa'] = pyn.accep(r)
    n = len(simple)
    phs = ['{%s}' % t for t in txns]
    word = [(['{%s}' % TXN[k - 100]] if k >= 100 else [phs[k % n]])[0] for k in word]
    s = ''.join(word)
    with sut('grammars of sounds'):
      eq([text(f) for f in p.ph_list(simple)], phs, 'ph_list')
      eq([text(f) for f in p.thing_ph_list('l', simple).value], phs, 'thing_ph_list')
      for u in (p.ph_union(simple), p.thing_ph_union('u', simple).value):
        eq(accepts(pyn, u, s), s in phs, 'union', word=s)
        eq(accepts(pyn, u, phs[0]), True, 'union', word=phs[0])
      for u in (p.ph_star(simple), p.thing_ph_star('u', simple).value):
        eq(accepts(pyn, u, s), all(w in phs for w in word), 'star', word=s)
      thing = p.thing_ph_modified('m', simple[:mods], simple[mods:]) if 0 < mods < n else None
      if thing is not None:
        ok = bool(word) and word[0] in phs[:mods] and all(w in phs[mods:] for w in word[1:])
        eq([thing.alias, accepts(pyn, thing.value, s)], ['m', ok], 'modified', word=s)
      for k, rs in (('base', trs), ('', trs), ('psa', list(reversed(trs)))):
        m = dict(zip(phs, rs))
        eq(outputs(pyn, s, p.ls_translit_by_key(simple, k)), [''.join(m.get(w, w) for w in word)], 'by key', word=s, key=k)
        eq(outputs(pyn, s, p.translit_by_key(simple[0], k)), [''.join(m[w] if w == phs[0] else w for w in word)],
           'one by key', word=s, key=k)
      m = dict(zip(phs, trs))
      eq(outputs(pyn, s, p.ls_translit_base(simple)), [''.join(m.get(w, w) for w in word)], 'base', word=s)
      eq(outputs(pyn, s, p.translit_base(simple[0])), [''.join(m[w] if w == phs[0] else w for w in word)], 'one base', word=s)
      eq(outputs(pyn, s, p.translit_ipa(simple[0])), [''.join(ipas[0] if w == phs[0] else w for w in word)], 'one IPA', word=s)
      full = simple + [mod.compose([simple[i % n] for i in pair], 'x')]
      cs = [i % n for i in pair]
      pairs = list(zip(phs, ipas)) + [('{+}'.join(phs[i] for i in cs), '͡'.join(ipas[i] for i in cs))]
      t = s + pairs[-1][0] + s
      eq(outputs(pyn, t, p.ls_translit_ipa(full)), splits(t, pairs), 'IPA of a sequence', word=t)
      aligned = ''.join('<a>=%s' % w for w in word)
      eq(outputs(pyn, aligned, p.print_only_ipa(simple)), splits(s, pairs[:-1]), 'IPA of alignments', word=aligned)
      inv = p.phon_inventory(full, [p.thing_ph_union('EVERY', full)])
      eq([x.alias for x in inv], [x.alias for x in full], 'inventory of sounds')
      acc = p.ph_inventory(full, [p.thing_ph_union('EVERY', full)])
      eq([text(x) for x in acc], phs + [pairs[-1][0]], 'inventory of acceptors')
      for x in full:
        if getattr(inv, x.alias) is not x or text(getattr(acc, x.alias)) != text(x.ph):
          fail('lookup of a sound', alias=x.alias)
      for e in (inv.EVERY, acc.EVERY):
        eq([accepts(pyn, e, x) for x in phs + ['{zz}']], [True] * n + [False], 'supplement')
    return len(set(word)) > 1
  size = 4
  ctx.check('apply', st.tuples(
      st.lists(st.sampled_from(TXN), min_size=size, max_size=size, unique=True),
      st.lists(st.sampled_from(IPA), min_size=size, max_size=size),
      st.lists(st.sampled_from(TRS), min_size=size, max_size=size),
      st.lists(st.integers(0, 3), min_size=2, max_size=3),
      st.lists(st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(100, 99 + len(TXN))), max_size=5),
      st.integers(0, 4), st.just(0)).map(list), one, ctx.n(250, 3000))


def chars(ctx):
  import pynini as pyn
  from nisaba.scripts.natural_translit.script import char as c
  GLYPHS = ['a', 'b', 'क', 'ä', 'é', 'ß', 'l̥']

  def see(x):
    return [x.alias, x.typ, text(x.gr), text(x.tr), x.glyph, text(x.ph)]

  def want(typ, glyph, ph='', alias=''):
    return [alias or typ.upper(), typ, '<%s>' % typ, '`%s`' % typ, glyph, ph]

  def one(case):
    typs, glyphs, phs, aliases, word, comp = case
    n = len(typs)
    with sut('characters'):
      xs = [c.Char(t, g, pyn.accep(h), a) for t, g, h, a in zip(typs, glyphs, phs, aliases)]
      ref = [want(*v) for v in zip(typs, glyphs, phs, aliases)]
      eq([see(x) for x in xs], ref, 'characters')
      eq([see(x) for x in c.uppercase_list(xs)], [want(t.upper() + '_uc', g.upper(), h) for t, g, h in zip(typs, glyphs, phs)],
         'uppercase')
      eq([see(c.make_substring(g)) for g in typs], [want('s_' + g, g) for g in typs], 'substrings')
      two = [want('s_' + t + t, g + g) for t, g in zip(typs, glyphs)]
      eq([see(c.double_substring(x)) for x in xs], two, 'doubled')
      doubles, table_ = c.ls_double_substring(xs)
      eq([see(x) for x in doubles], two, 'list of doubled')
      eq({k: text(v) for k, v in table_.items()}, {'`%s`' % t: '`s_%s%s`' % (t, t) for t in typs}, 'table of doubled')
      # Pairs of a first and a second half cannot overlap.
      half = n // 2
      parts = {(a % half, half + b % (n - half)) for a, b in comp}
      comps = [c.make_composite_char([xs[i], xs[j]], 'c%d%d' % (i, j), pyn.accep(phs[i]), 'C' if i else '') for i, j in sorted(parts)]
      eq([see(x) + [text(x.cmp)] for x in comps],
         [want('c%d%d' % (i, j), glyphs[i] + glyphs[j], phs[i], 'C' if i else '') + ['<%s><%s>' % (typs[i], typs[j])]
          for i, j in sorted(parts)], 'composites')
      ks = [k % n for k in word]
      s = ''.join('<%s>' % typs[k] for k in ks)
      out = s
      for i, j in parts:
        out = out.replace('<%s><%s>' % (typs[i], typs[j]), '<c%d%d>' % (i, j))
      eq(outputs(pyn, s, c.compose_from_gr(comps)), [out], 'composition', word=s)
      grs, trs = ['<%s>' % t for t in typs], ['`%s`' % t for t in typs]
      eq([text(f) for f in c.gr_list(xs)], grs, 'gr_list')
      eq([text(f) for f in c.tr_list(xs)], trs, 'tr_list')
      eq([text(f) for f in c.thing_gr_list('l', xs).value], grs, 'thing_gr_list')
      eq([text(f) for f in c.thing_tr_list('l', xs).value], trs, 'thing_tr_list')
      for k, us in (('gr', grs), ('tr', trs)):
        word_ = [us[x] for x in ks]
        union, star = getattr(c, 'thing_%s_union' % k)('U', xs[:-1]), getattr(c, 'thing_%s_star' % k)('S', xs[:-1])
        eq([union.alias, star.alias], ['U', 'S'], 'aliases')
        w = ''.join(word_)
        eq(accepts(pyn, union.value, w), len(ks) == 1 and ks[0] < n - 1, 'union of ' + k, word=w)
        eq(accepts(pyn, star.value, w), all(x < n - 1 for x in ks), 'star of ' + k, word=w)
        inv = getattr(c, k + '_inventory')(xs, [union])
        eq([text(f) for f in inv], us, 'inventory of ' + k)
        eq([text(getattr(inv, r[0])) for r in ref], us, 'lookup of ' + k)
        eq(accepts(pyn, inv.U, us[0]), True, 'supplement')
      inv = c.char_inventory(xs)
      if any(getattr(inv, r[0]) is not x for x, r in zip(xs, ref)) or len(inv) != n:
        fail('inventory of characters', aliases=[r[0] for r in ref])
      raw = ''.join(glyphs[k] for k in ks)
      eq(outputs(pyn, raw, c.read_glyph(xs)), splits(raw, list(zip(glyphs, grs))), 'reading', word=raw)
      t = ''.join(trs[k] for k in ks)
      eq(outputs(pyn, t, c.print_glyph(xs)), [raw], 'printing', word=t)
      al = ''.join('<a>=' + trs[k] for k in ks)
      eq(outputs(pyn, al, c.print_only_glyph(xs)), [raw], 'printing of alignments', word=al)
      eq(outputs(pyn, al[4:] if al else '', c.print_only_glyph(xs)), [raw], 'printing of alignments', word=al[4:])
      single = [x for x in xs[:-1] if len(x.glyph) == 1]
      rep = ''.join(glyphs[k] * (1 + k % 3) for k in ks)
      own = ''.join(x.glyph for x in single)
      out = re.sub('([%s])\\1' % own, '\\1', rep) if own else rep
      if single:
        eq(outputs(pyn, rep, c.remove_repeated_glyph(single)), [out], 'repeated', word=rep)
    return len(set(ks)) > 1 and out != rep
  ctx.check('build', st.tuples(
      st.lists(st.sampled_from(['a', 'b', 'aa', 'vcl', 'k', 'n_chl', 's_sh']), min_size=4, max_size=4, unique=True),
      st.lists(st.sampled_from(GLYPHS), min_size=4, max_size=4, unique=True),
      st.lists(st.sampled_from(['', '{a}', '{k}{:}']), min_size=4, max_size=4),
      st.permutations(['', '', 'P', 'Q']),
      st.lists(st.integers(0, 3), max_size=6),
      st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)).map(list), min_size=1, max_size=3)).map(list),
            one, ctx.n(300, 4000))


def latin(ctx):
  import pynini as pyn
  from nisaba.scripts.natural_translit.latin import ltn_inventory as ltn
  letters = 'abcdefghijklmnopqrstuvwxyz'
  others = ['ae', 'ai', 'au', 'ch', 'dh', 'kh', 'ng', 'ny', 'rd', 'sh', 'th', 'zh']
  want = {a.upper(): (a, a) for a in letters}
  want |= {a.upper() + '_UC': (a.upper() + '_uc', a.upper()) for a in letters}
  want |= {'S_' + s.upper(): ('s_' + s, s) for s in [a + a for a in letters] + others}
  want['DEL'] = ('DEL', '')

  def whole(_):
    eq({x.alias: (x.typ, x.glyph) for x in ltn.CHARS}, want, 'Latin characters')
    eq([len(ltn.CHARS), len(ltn.GRAPHEME_INVENTORY), len(ltn.TRANSLIT_INVENTORY)], [len(want)] * 3, 'number')
    for a in letters + letters.upper():
      for u, s in ((ltn.GRAPHEME_INVENTORY.VOWEL, 'aeiou'), (ltn.GRAPHEME_INVENTORY.CONS, set(letters) - set('aeiou'))):
        eq(accepts(pyn, u, '<%s>' % a), a in s, 'class of a letter', letter=a)
    return True
  ctx.enum('whole', [0], whole)

  def one(alias):
    typ, glyph = want[alias]
    eq([text(getattr(ltn.GRAPHEME_INVENTORY, alias)), text(getattr(ltn.TRANSLIT_INVENTORY, alias))],
       ['<%s>' % typ, '`%s`' % typ], 'lookup', alias=alias)
    eq(outputs(pyn, '`%s`' % typ, ltn.print_only_ltn()), [glyph], 'printing', alias=alias)
    eq(text(ltn.double_substring_tr(pyn.accep('`%s`' % typ))),
       '`s_%s%s`' % (typ, typ) if typ in letters and len(typ) == 1 else '`%s`' % typ, 'doubling', alias=alias)
    return True
  ctx.enum('letter', sorted(want), one)
  printer = ltn.print_only_ltn()

  def words(case):
    names, raw = case
    t = ''.join('<x>=`%s`' % want[a][0] for a in names)
    g = ''.join(want[a][1] for a in names)
    with sut('Latin grammars'):
      eq(outputs(pyn, t, printer), [g], 'printing', word=t)
      eq(outputs(pyn, raw, ltn.DEL_REPEATED_LOWER), [re.sub(r'([a-z])\1', r'\1', raw)], 'repeated letters', word=raw)
      eq(outputs(pyn, raw, ltn.DEL_REPEATED_SUBSTRING), [re.sub('(%s)\\1' % '|'.join(others), r'\1', raw)],
         'repeated substrings', word=raw)
      s = ''.join('`%s`' % want[a][0] for a in names)
      eq(accepts(pyn, ltn.TRANSLIT_INVENTORY.EN_LETTERS, s), all(a.endswith('_UC') for a in names), 'EN_LETTERS', word=s)
    return len(names) > 1 or len(raw) > 2
  ctx.check('words', st.tuples(
      st.one_of(st.lists(st.sampled_from(sorted(want)), max_size=6), st.lists(st.sampled_from([a + '_UC' for a in letters.upper()]), max_size=6)),
      st.one_of(st.lists(st.sampled_from(others + list('abhnssA ')), max_size=7).map(''.join),
                st.text('abhsnyA', max_size=8))).map(list), words, ctx.n(1200, 20000))


def run(ctx):
  f = {'table': table, 'grammars': grammars, 'chars': chars, 'latin': latin}.get(ctx.sub, phones)
  f(ctx)
