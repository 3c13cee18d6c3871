"""N13: phones carry the features of their place on the IPA chart, and inventories keep them."""
from lib.pbt import eq, fail, sut, st

TARGETS = ['//nisaba/scripts/natural_translit/phonology:phonological_symbol',
           '//nisaba/scripts/natural_translit/phonology/features:descriptive',
           '//nisaba/scripts/natural_translit/phonology/features:language',
           '//nisaba/scripts/natural_translit/phonology/inventories:x_uni']
RULE = ('Every phone of the multilingual inventory is compared with an IPA chart written down in '
        'the check, and random groups of phones and aspects with distances worked out from the '
        'documented tables. Random histories build phone inventories for random languages: phones '
        'with random features added, refused, copied, updated, updated from others, listed, turned '
        'into alternations and synchronized; next to a model of plain dictionaries. Languages are '
        'made from every ISO code. Non-trivial: a pair of phones that differ in an aspect compared, '
        'a history with a copy or an atomic expression whose original changes later.')

# The aspects and values of the descriptive features, as documented.
ASPECTS = {
    'ph_class': ['vowel', 'consonant'],
    'airstream': ['pulmonic', 'ejective', 'implosive', 'click'],
    'manner': ['stop', 'fricative', 'sibilant', 'strident', 'non_sibilant', 'approximant', 'tap', 'flap', 'trill'],
    'place': ['labial', 'dental', 'alveolar', 'postalveolar', 'palatal', 'velar', 'uvular', 'epiglottal', 'glottal'],
    'articulator': ['labial', 'apical', 'laminal', 'dorsal', 'laryngeal'],
    'height': ['close', 'near_close', 'close_mid', 'mid', 'open_mid', 'near_open', 'open'],
    'backness': ['front', 'near_front', 'central', 'near_back', 'back'],
    'breathiness': ['aspirated', 'breathy', 'murmured', 'unaspirated', 'none'],
    'voicing': ['voiced', 'voiceless'],
    'labialization': ['labialized', 'rounded', 'none', 'unrounded'],
    'lateralization': ['lateral', 'none'],
    'nasalization': ['nasalized', 'none'],
    'palatalization': ['light', 'heavy', 'none'],
    'rhoticization': ['rhotic', 'none'],
    'duration': ['extra_short', 'short', 'half_long', 'long', 'extra_long'],
    'syllabicity': ['syllabic', 'none'],
}
LINE = {'place': .5, 'height': .5, 'backness': .5, 'palatalization': .5, 'duration': .5}   # step per value
SAME = {'articulator': .5}                                                               # one step apart
GROUPS = {   # values of one group are not told apart
    'airstream': [['ejective', 'implosive']],
    'breathiness': [['aspirated', 'breathy', 'murmured'], ['unaspirated', 'none']],
    'labialization': [['labialized', 'rounded'], ['none', 'unrounded']],
}


def apart(asp, x, y):
  """The documented distance of two values of an aspect."""
  vals = ASPECTS[asp]
  if x == y:
    return 0
  if asp in LINE:
    return LINE[asp] * abs(vals.index(x) - vals.index(y))
  if any(x in g and y in g for g in GROUPS.get(asp, ())):
    return 0
  if asp == 'manner':
    fric = ['sibilant', 'strident', 'non_sibilant']
    flap = ['tap', 'flap']
    if x in fric and y in fric:
      return .25 * abs(fric.index(x) - fric.index(y))
    row = {'stop': 0, 'fricative': 1, 'sibilant': 1, 'strident': 1, 'non_sibilant': 1}
    if row.get(x, 2) != row.get(y, 2):
      return abs(row.get(x, 2) - row.get(y, 2))
    if row.get(x, 2) == 1:
      return 0
    if 'approximant' in (x, y):
      return 1
    return 0 if x in flap and y in flap else .5
  return SAME.get(asp, 1)


MAX = {asp: max(apart(asp, x, y) for x in v for y in v) for asp, v in ASPECTS.items()}


def far(asp, xs, ys):
  """The distance of two sets of values: that of the nearest."""
  def one(x, y):
    if x == y or 'any' in (x, y):
      return 0
    return MAX[asp] if 'n_a' in (x, y) else apart(asp, x, y)
  return min(one(x, y) for x in xs for y in ys)


VOWEL = dict(ph_class='vowel', airstream='pulmonic', manner='n_a', place='n_a', articulator='n_a', breathiness='none',
             voicing='voiced', lateralization='n_a', nasalization='none', palatalization='none', rhoticization='none',
             duration='any', syllabicity='syllabic', height='any', backness='any', labialization='any')
CONSONANT = dict(ph_class='consonant', airstream='pulmonic', height='n_a', backness='n_a', labialization='none',
                 lateralization='none', nasalization='none', palatalization='none', rhoticization='none',
                 duration='any', syllabicity='none', manner='any', place='any', articulator='any', breathiness='any',
                 voicing='any')

# The vowel chart: height, then backness, then unrounded and rounded.
VOWELS = '''
close       front i y  central ɨ ʉ  back ɯ u
near_close  near_front ɪ ʏ  near_back - ʊ
close_mid   front e ø  central ɘ ɵ  back ɤ o
mid         central ə -
open_mid    front ɛ œ  central ɜ ɞ  back ʌ ɔ
near_open   front æ -  central ɐ -
open        front a ɶ  central ä -  back ɑ ɒ
'''
COLUMNS = {
    'bilabial': dict(articulator='labial', place='labial', labialization='labialized'),
    'labiodental': dict(articulator='labial', place='dental', labialization='labialized'),
    'dental': dict(articulator='apical', place='dental'),
    'alveolar': dict(articulator='apical laminal', place='alveolar'),
    'para_alveolar': dict(articulator='apical laminal', place='dental alveolar postalveolar'),
    'postalveolar': dict(articulator='laminal', place='postalveolar', palatalization='light'),
    'retroflex': dict(articulator='apical', place='postalveolar palatal', palatalization='none'),
    'palatal': dict(articulator='apical laminal dorsal', place='palatal', palatalization='heavy'),
    'velar': dict(articulator='dorsal', place='velar'),
    'uvular': dict(articulator='dorsal', place='uvular'),
    'epiglottal': dict(articulator='laryngeal', place='epiglottal'),
    'glottal': dict(articulator='laryngeal', place='glottal'),
}
ROWS = {
    'stop': dict(manner='stop'),
    'sibilant': dict(manner='sibilant'),
    'non_sibilant': dict(manner='non_sibilant'),
    'tap': dict(manner='tap'),
    'trill': dict(manner='trill'),
    'nasal': dict(manner='stop', nasalization='nasalized', voicing='voiced'),
    'approximant': dict(manner='approximant', voicing='voiced'),
    'lateral_fricative': dict(manner='non_sibilant', lateralization='lateral'),
    'lateral_approximant': dict(manner='approximant', voicing='voiced', lateralization='lateral'),
    'lateral_tap': dict(manner='tap', voicing='voiced', lateralization='lateral'),
}
# The consonant chart: row, column, then the voiceless and the voiced symbol, or one of neither kind.
CHART = '''
nasal bilabial m; labiodental ɱ; para_alveolar n; retroflex ɳ; palatal ɲ; velar ŋ; uvular ɴ
stop bilabial p b; para_alveolar t d; retroflex ʈ ɖ; palatal c ɟ; velar k ɡ; uvular q ɢ; epiglottal ʡ -; glottal ʔ -
sibilant dental+alveolar s z; postalveolar ʃ ʒ; retroflex ʂ ʐ; palatal ɕ ʑ
non_sibilant bilabial ɸ β; labiodental f v; dental θ ð; palatal ç ʝ; velar x ɣ; uvular χ ʁ; epiglottal ħ ʕ; glottal h ɦ
approximant labiodental ʋ; para_alveolar ɹ; retroflex ɻ; palatal j; velar ɰ
tap labiodental ⱱ; para_alveolar ɾ; retroflex ɽ
trill bilabial ʙ; para_alveolar r; uvular ʀ; epiglottal ʢ; epiglottal ʜ -
lateral_fricative para_alveolar ɬ ɮ; retroflex ꞎ -
lateral_approximant para_alveolar l; retroflex ɭ; palatal ʎ; velar ʟ
lateral_tap para_alveolar ɺ
'''
# Symbols with a second articulation.
OTHERS = {
    'ʍ': ('non_sibilant', 'velar', dict(voicing='voiceless', labialization='labialized')),
    'w': ('approximant', 'velar', dict(labialization='labialized')),
    'ɥ': ('approximant', 'palatal', dict(labialization='labialized')),
    'ɫ': ('lateral_approximant', 'velar', dict(labialization='labialized')),
    'ɧ': ('non_sibilant', 'velar', dict(voicing='voiceless', palatalization='heavy')),
}


def chart():
  """IPA symbol -> {aspect: set of values}."""
  out = {}
  def put(ipa, *parts):
    d = {}
    for p in parts:
      d.update(p)
    out[ipa] = {a: set(v.split()) for a, v in d.items()}
  for line in VOWELS.strip().splitlines():
    h, *rest = line.split()
    for k in range(0, len(rest), 3):
      for ipa, r in zip(rest[k + 1:k + 3], ('unrounded', 'rounded')):
        if ipa != '-':
          put(ipa, VOWEL, dict(height=h, backness=rest[k], labialization=r))
  for line in CHART.strip().splitlines():
    row, rest = line.split(' ', 1)
    for cell in rest.split('; '):
      col, *syms = cell.split()
      cols = [COLUMNS[c] for c in col.split('+')]
      for k, ipa in enumerate(syms):
        if ipa != '-':
          put(ipa, CONSONANT, ROWS[row], *cols, {} if len(syms) == 1 else dict(voicing=('voiceless', 'voiced')[k]))
          for c in cols[:-1]:      # both columns
            for a in ('place', 'articulator'):
              out[ipa][a] |= set(c[a].split())
  for ipa, (row, col, extra) in OTHERS.items():
    put(ipa, CONSONANT, ROWS[row], COLUMNS[col], extra)
  return out


LANGS = ['kn', 'te', 'ml', 'ta', 'bn', 'gu', 'hi', 'mr', 'pa', 'en', 'mul', 'und', 'x_uni', 'x_psa']
FAMILY = {'dravidian': ['kn', 'te', 'ml', 'ta'], 'tamil_kota': ['ml', 'ta'],
          'indo_european': ['bn', 'gu', 'hi', 'mr', 'pa', 'en'], 'indo_aryan': ['bn', 'gu', 'hi', 'mr', 'pa'],
          'germanic': ['en'], 'mixed_family': ['mul', 'und', 'x_uni', 'x_psa'], 'language': LANGS}


def subs(tier):
  return ['chart', 'similar', 'history1', 'history2', 'languages']


def values(phone):
  """{aspect: aliases of the values} of a symbol's descriptive features."""
  return {s.alias: {f.alias for f in s} for s in phone.features.descriptive}


def show(d):
  return {a: sorted(v) for a, v in sorted(d.items())}


def run(ctx):
  {'c': charts, 's': similar, 'h': history, 'l': languages}[ctx.sub[0]](ctx)


def charts(ctx):
  from nisaba.scripts.natural_translit.phonology import phonological_symbol as po
  from nisaba.scripts.natural_translit.phonology.inventories import x_uni
  ref = chart()
  P = x_uni.PHONEMES
  F = po.Phon.DESCRIPTIVE_FEATURES
  prefix = int(po.Phon.ReservedIndex.PHONEME_PREFIX)

  def whole(_):
    eq(sorted(x.ipa for x in P), sorted(ref), 'symbols of the inventory')
    eq(len({x.alias for x in P}), len(P), 'aliases')
    eq([x.index for x in P], [prefix + 8000 * 100 + k + 1 for k in range(len(P))], 'indices')
    eq([x.ipa for x in P.vowel] + [x.ipa for x in P.consonant], [x.ipa for x in P], 'vowels and consonants')
    eq([x.ipa for x in P.vowel], [x.ipa for x in P if ref[x.ipa]['ph_class'] == {'vowel'}], 'vowels')
    return True
  ctx.enum('inventory', [0], whole)

  def one(ipa):
    x = next(x for x in P if x.ipa == ipa)
    want = ref[ipa]
    eq(show(values(x)), show(want), 'features', phone=ipa, name=x.name)
    atomic = P.atomics.get(x.alias)
    if atomic.symbol is not x:
      fail('another atomic expression', phone=ipa)
    eq(show(values(atomic)), show(want), 'features of the atomic expression', phone=ipa)
    eq([x.language.alias, x.language.index], ['x_uni', 8000], 'language')
    # The words of the name are among the features.
    words = x.name.replace('\u00ad', '').replace('center', 'central').replace('flap', 'tap').split()
    low = {v for vs in want.values() for v in vs}
    for w in words:
      if w in ('voiced', 'voiceless', 'rounded', 'unrounded', 'stop', 'trill', 'tap', 'approximant', 'lateral', 'sibilant',
               'vowel') or w in ASPECTS['height'] + ASPECTS['backness']:
        if w not in low:
          fail('the name states another feature', phone=ipa, name=x.name, word=w)
    # Every question about a feature.
    for a, vals in ASPECTS.items():
      asp = getattr(F, a)
      for v in vals + ['any', 'n_a']:
        with sut('has_feature'):
          f = getattr(asp, v)
          got = [x.has_feature(f), atomic.has_feature(f), f.is_in(x), f.is_in(atomic), f.is_in(x.features),
                 f.is_in(x.features.descriptive), x.features.descriptive.has_feature(f)]
        eq(got, [v in want[a]] * 7, 'has_feature', phone=ipa, feature=a + '.' + v)
    for a, name, under in LISTS:
      with sut('has_feature'):
        f = getattr(getattr(F, a), name)
        got = [x.has_feature(f), atomic.has_feature(f), f.is_in(x), f.is_in(atomic), f.is_in(x.features),
               x.features.descriptive.has_feature(f)]
      eq(got, [bool(want[a] & set(under or ASPECTS[a]))] * 6, 'has_feature of a list', phone=ipa, list=name)
    for lang in LANGS:
      with sut('has_feature'):
        eq(x.has_feature(getattr(po.Phon.LANGUAGE, lang)), lang == 'x_uni', 'has_feature of a language')
    return True
  ctx.enum('phone', sorted(ref), one)

  def sets(name):
    """The rows and columns of the chart."""
    want = {a: set(v.split()) for a, v in (ROWS | COLUMNS)[name].items()}
    got = {}
    for f in getattr(F, name):
      got.setdefault(f.aspect.alias, set()).add(f.alias)
    eq(show(got), show(want), 'set of features', set=name)
    return True
  ctx.enum('sets', ['nasal', 'approximant', 'lateral_fricative', 'lateral_approximant', *COLUMNS], sets)


LISTS = [('manner', 'fricatives', ['fricative', 'sibilant', 'strident', 'non_sibilant']),
         ('manner', 'amplitude', ['sibilant', 'strident', 'non_sibilant']),
         ('manner', 'approximant_like', ['approximant', 'tap', 'flap', 'trill']),
         ('manner', 'tap_flap_trill', ['tap', 'flap', 'trill']), ('manner', 'non_trill', ['tap', 'flap']),
         ('airstream', 'glottalic', ['ejective', 'implosive']),
         ('breathiness', 'is_breathy', ['aspirated', 'breathy', 'murmured']),
         ('breathiness', 'not_breathy', ['unaspirated', 'none']),
         ('labialization', 'is_labialized', ['labialized', 'rounded']),
         ('labialization', 'not_labialized', ['none', 'unrounded'])]


def similar(ctx):
  from nisaba.scripts.natural_translit.phonology import phonological_symbol as po
  from nisaba.scripts.natural_translit.phonology.inventories import x_uni
  F = po.Phon.DESCRIPTIVE_FEATURES
  P = {x.ipa: x for x in x_uni.PHONEMES}
  ref = chart()
  names = list(ASPECTS)

  def one(case):
    syms, asps, changes = case
    phones = []
    for ipa in syms:
      with sut('copy'):
        x = P[ipa].copy()
      d = {a: set(v) for a, v in ref[ipa].items()}
      for a, v in changes:
        with sut('update'):
          x.update_descriptives(getattr(getattr(F, a), v))
        d[a] = {v}
        changes = changes[1:]
        break                # one change each
      phones.append((x, d))
    aspects = [getattr(F, a) for a in asps]
    nt = False
    for x, d in phones:
      for y, e in phones:
        for sub, arg in ((names, ()), (asps, (aspects,)) if asps else (names, ())):
          dist = sum(far(a, d[a], e[a]) for a in sub)
          top = sum(MAX[a] for a in sub)
          with sut('similarity'):
            got = x.descriptives().similarity(y.descriptives(), *arg)
            table = x.descriptives().comparison_table(y.descriptives(), *arg)
          if abs(got - (1 - dist / top)) > 1e-9:
            fail('similarity', phones=x.ipa + y.ipa, got=got, want=1 - dist / top, aspects=' '.join(sub))
          if '(max distance = %.2f)' % top not in table:
            fail('the greatest distance of a comparison', want='%.2f' % top, got=table.split('\n')[0])
          rows = {r.split('|')[1].strip(): r.split('|') for r in table.split('\n') if r.startswith('| ')}
          eq({a for a in names if a in rows}, {a for a in sub if far(a, d[a], e[a])}, 'aspects that differ',
             phones=x.ipa + y.ipa)
          for a in sub:
            if a in rows:
              eq(float(rows[a][4]), float(far(a, d[a], e[a])), 'distance in the table', aspect=a)
          nt = nt or dist > 0
    return nt
  change = st.sampled_from([[a, v] for a in ASPECTS for v in ASPECTS[a] + ['any', 'n_a']])
  ctx.check('similar', st.tuples(st.lists(st.sampled_from(sorted(ref)), min_size=2, max_size=4),
                                 st.lists(st.sampled_from(names), unique=True, max_size=6),
                                 st.lists(change, max_size=4)).map(list), one, ctx.n(350, 12000))


ALIASES = ['a', 'b', 'c', 'd', 'e', 'sh', 'v1', 'lst', 'language']
SUPPLS = ['vowel', 'lst', 'others', 'a']


def history(ctx):
  from nisaba.scripts.natural_translit.phonology import phonological_symbol as po
  F = po.Phon.DESCRIPTIVE_FEATURES
  prefix = int(po.Phon.ReservedIndex.PHONEME_PREFIX)
  names = list(ASPECTS)
  default = {a: {'any'} for a in names}

  def feats(spec):
    """(arguments, {aspect: values})."""
    args, want = [], {}
    for kind, i, j in spec:
      if kind == 'value':
        a = names[i % len(names)]
        v = (ASPECTS[a] + ['n_a'])[j % (len(ASPECTS[a]) + 1)]
        args.append(getattr(getattr(F, a), v))
        got = {a: {v}}
      elif kind == 'set':
        n = sorted(COLUMNS)[i % len(COLUMNS)]
        args.append(getattr(F, n))
        got = {a: set(v.split()) for a, v in COLUMNS[n].items()}
      elif kind == 'list':
        a, n, under = LISTS[i % len(LISTS)]
        args.append(getattr(getattr(F, a), n))
        got = {a: set(under)}
      else:
        n, d = [('vowel', VOWEL), ('consonant', CONSONANT)][i % 2]
        args.append(getattr(F, n))
        got = {a: set(v.split()) for a, v in d.items()}
      for a, v in got.items():
        want.setdefault(a, set()).update(v)
    return args, want

  def one(case):
    langs, ops = case
    L = po.Phon.LANGUAGE
    with sut('inventories'):
      invs = [po.Phon.Inventory(getattr(L, l)) for l in langs]
    model = []          # {alias: phone} in order, one for each inventory
    suppls, ors, synced = [], [], []
    for inv, l in zip(invs, langs):
      eq([inv.alias, inv.language.alias, len(inv), len(inv.atomics)], [l, l, 0, 0], 'new inventory')
      model.append({})
      suppls.append({})
      ors.append({})
      synced.append({})
    phones, info = [], {}       # id -> {attribute: value}, features
    nt = False

    def new(x, alias, ipa, name, lang, index, d, home):
      phones.append(x)
      info[id(x)] = dict(alias=alias, ipa=ipa, name=name, lang=lang, index=index, home=home, feats=d)

    def check(where):
      for x in phones:
        m = info[id(x)]
        eq([x.alias, x.ipa, x.name, x.language.alias], [m['alias'], m['ipa'], m['name'], m['lang']], 'phone after ' + where)
        if m['index'] is not None:
          eq(x.index, m['index'], 'index after ' + where)
        if m['home'] is not None and x.inventory is not invs[m['home']]:
          fail('inventory of a phone after ' + where)
        eq(show(values(x)), show(m['feats']), 'features after ' + where, phone=x.alias)
      for i, inv in enumerate(invs):
        eq([id(x) for x in inv], [id(x) for x in model[i].values()], 'phones after ' + where)
        for alias, x in model[i].items():
          if inv.get(alias) is not x or inv.index_lookup(x.index) is not x and info[id(x)]['home'] == i and \
              sum(y.index == x.index for y in model[i].values()) == 1:
            fail('lookup of a phone after ' + where, alias=alias)
          atomic = inv.atomics.get(alias)
          if atomic.symbol is not x:
            fail('atomic expression after ' + where, alias=alias)
          eq(show(values(atomic)), show(synced[i][alias]), 'features of an atomic expression after ' + where, alias=alias)
        for alias, items in suppls[i].items():
          eq([id(x) for x in inv.get(alias)], [id(x) for x in items], 'list after ' + where, list=alias)
        for alias, items in ors[i].items():
          o = inv.atomics.get(alias)
          eq([id(s[0]) for s in o.symbols() if len(s) == 1] if items else [], [id(x) for x in items],
             'alternation after ' + where, list=alias)

    for kind, i, k, alias, spec, flag in ops:
      i %= len(invs)
      inv = invs[i]
      if kind == 'new':
        args, want = feats(spec)
        with sut('Phon'):
          x = po.Phon(alias=alias, ipa=alias + 'ʰ', name='phone ' + alias, features=args)
        new(x, alias, alias + 'ʰ', 'phone ' + alias, 'x_uni', None, {a: set(want.get(a, {'any'})) for a in names}, None)
      elif not phones:
        continue
      elif kind == 'add':
        xs = [phones[(k + n) % len(phones)] for n in range(min(1 + k % 3, len(phones)))]
        xs = [x for x in xs if info[id(x)]['home'] is None]     # adding to a second inventory moves a phone
        list_alias = alias if flag and alias in SUPPLS else ''
        fields = set(vars(inv))
        with sut('add_phonemes'):
          got = inv.add_phonemes(*xs, list_alias=list_alias)
        want = []
        for x in xs:
          m = info[id(x)]
          m['lang'], m['index'] = langs[i], prefix + inv.language.index * 100 + len(model[i]) + 1
          if m['alias'] not in fields:
            fields.add(m['alias'])
            model[i][m['alias']] = x
            m['home'] = i
            synced[i][m['alias']] = {a: set(v) for a, v in m['feats'].items()}
            want.append(x)
        eq([id(x) for x in got], [id(x) for x in want], 'phones added')
        if list_alias and list_alias not in fields:
          suppls[i][list_alias] = list(want)
      elif kind == 'copy':
        x = phones[k % len(phones)]
        m = info[id(x)]
        lang = LANGS[k % len(LANGS)] if flag else None
        opts = ({'alias': alias, 'ipa': 'ʔ' + alias} if k % 2 else {}) | ({'language': getattr(L, lang)} if flag else {})
        with sut('copy'):
          y = x.copy(**opts)
        new(y, opts.get('alias', m['alias']), opts.get('ipa', m['ipa']), m['name'], lang or m['lang'], x.index,
            {a: set(v) for a, v in m['feats'].items()}, None)
        nt = True
      elif kind == 'update':
        x = phones[k % len(phones)]
        args, want = feats(spec)
        with sut('update_descriptives'):
          r = x.update_descriptives(*args)
        if r is not x:
          fail('update_descriptives did not return the phone')
        for a, v in want.items():
          info[id(x)]['feats'][a] = set(v)
        nt = nt or info[id(x)]['home'] is not None
      elif kind == 'feature':
        x = phones[k % len(phones)]
        args, want = feats(spec)
        with sut('add_features'):
          x.add_features(*args)
        for a, v in want.items():
          info[id(x)]['feats'][a] = info[id(x)]['feats'][a] - {'any'} | v
      elif kind == 'from':
        x = phones[k % len(phones)]
        ys = [phones[(k + n + 1) % len(phones)] for n in range(1 + k % 2)]
        with sut('update_descriptives_from_symbol'):
          r = x.update_descriptives_from_symbol(*ys)
        if r is not x:
          fail('update_descriptives_from_symbol did not return the phone')
        info[id(x)]['feats'] = {a: set().union(*(info[id(y)]['feats'][a] for y in ys)) for a in names}
      elif kind == 'suppl':
        xs = list(model[i].values())
        xs = xs[k % 3:]
        ok = alias not in vars(inv)
        with sut('make_iterable_suppl'):
          r = inv.make_iterable_suppl(alias, *xs)
        eq(r, ok, 'make_iterable_suppl')
        if ok:
          suppls[i][alias] = list(dict.fromkeys(xs))
      elif kind == 'grow':
        if suppls[i] and model[i]:
          s = sorted(suppls[i])[k % len(suppls[i])]
          x = list(model[i].values())[k % len(model[i])]
          if x not in suppls[i][s]:
            with sut('add to a list'):
              inv.get(s).add(x)
            suppls[i][s].append(x)
            nt = nt or s in ors[i]
      elif kind == 'or':
        if suppls[i]:
          s = sorted(suppls[i])[k % len(suppls[i])]
          ok = s not in vars(inv.atomics)
          with sut('or_from_suppl'):
            r = inv.or_from_suppl(inv.get(s))
          eq(r, ok, 'or_from_suppl')
          if ok:
            ors[i][s] = list(suppls[i][s])
      elif kind == 'sync':
        given = [s for n, s in enumerate(sorted(suppls[i])) if k >> n & 1]
        # A list named like an attribute of the atomics has no alternation.
        given = [s for s in given if s in ors[i] or s not in vars(inv.atomics)]
        with sut('sync_atomics'):
          r = inv.sync_atomics([inv.get(s) for s in given]) if given or flag else inv.sync_atomics()
        if r is not inv:
          fail('sync_atomics did not return the inventory')
        for a in model[i]:
          synced[i][a] = {b: set(v) for b, v in info[id(model[i][a])]['feats'].items()}
        for s in given:
          ors[i][s] = list(dict.fromkeys(ors[i].get(s, []) + suppls[i][s]))
      elif kind == 'ask':
        x = phones[k % len(phones)]
        m = info[id(x)]
        for a in names:
          for v in ASPECTS[a] + ['any', 'n_a']:
            with sut('has_feature'):
              got = x.has_feature(getattr(getattr(F, a), v))
            eq(got, v in m['feats'][a], 'has_feature', feature=a + '.' + v)
        for a, n, under in LISTS:
          with sut('has_feature'):
            got = x.has_feature(getattr(getattr(F, a), n))
          eq(got, bool(m['feats'][a] & set(under)), 'has_feature of a list', list=n)
        for l in LANGS:
          with sut('has_feature'):
            got = x.has_feature(getattr(L, l))
          eq(got, l == m['lang'], 'has_feature of a language', language=l)
        for l, under in FAMILY.items():
          with sut('has_feature'):
            got = x.has_feature(getattr(L, l))
          eq(got, m['lang'] in under, 'has_feature of a family', language=l)
        continue
      check(kind)
    return nt
  kinds = ['new', 'new', 'new', 'add', 'add', 'add', 'copy', 'update', 'feature', 'from', 'suppl', 'grow', 'grow', 'or',
           'sync', 'sync', 'sync', 'ask']
  spec = st.lists(st.tuples(st.sampled_from(['value', 'value', 'value', 'set', 'list', 'profile']), st.integers(0, 40),
                            st.integers(0, 20)).map(list), max_size=3)
  op = st.tuples(st.sampled_from(kinds), st.integers(0, 1), st.integers(0, 15), st.sampled_from(ALIASES + SUPPLS), spec,
                 st.booleans()).map(list)
  start = [['new', 0, 0, 'a', [['profile', 0, 0]], False], ['new', 0, 0, 'b', [['profile', 1, 0]], False],
           ['add', 0, 0, 'vowel', [], True], ['add', 0, 1, 'vowel', [], False], ['or', 0, 0, 'a', [], False]]
  ctx.check('history', st.tuples(st.lists(st.sampled_from(LANGS), min_size=1, max_size=2),
                                 st.lists(op, min_size=1, max_size=14).map(lambda ops: start + ops)).map(list), one,
            ctx.n(250, 8000))


def languages(ctx):
  import pycountry
  from nisaba.scripts.natural_translit.phonology.features import language
  every = list(pycountry.languages)
  aspect = language.FEATURES.language

  def iso(case):
    code, k = case
    with sut('from_iso'):
      got = language.Language.from_iso(code)
    eq([got.alias, got.text, got.index], [code.lower(), every[k].name, k], 'language of a code', code=code)
    return True
  cases = []
  for k, l in enumerate(every):
    if getattr(l, 'alpha_2', None):
      cases += [[l.alpha_2, k], [l.alpha_3, k]]
    elif k % 40 == 0 or ctx.tier == 'thorough':
      cases.append([l.alpha_3, k])
  ctx.enum('iso', cases, iso)

  def bad(code):
    try:
      got = language.Language.from_iso(code)
    except ValueError as e:
      return code in str(e)
    fail('a language from a bad code', code=code, got=got.alias)
  ctx.check('bad', st.text('abcdefgzEN_- ', max_size=8).filter(lambda s: len(s) not in (2, 3)), bad, ctx.n(100, 1000))

  def tree(case):
    x, y = case
    with sut('languages'):
      a, b = getattr(aspect, x), getattr(aspect, y)
      got = [a.distance(b), a is b, a.index == b.index]
    eq(got, [int(x != y), x == y, x == y], 'distance of languages')
    for f, under in FAMILY.items():
      with sut('is_in'):
        eq(a.is_in(getattr(aspect, f)), x in under, 'language in a family', language=x, family=f)
    return x != y
  ctx.enum('tree', ([x, y] for x in LANGS for y in LANGS), tree)

  def all_of(_):
    eq(sorted(f.alias for f in aspect), sorted(LANGS), 'languages')
    for f in aspect:
      if not f.alias.startswith('x_'):
        l = pycountry.languages.get(**{'alpha_%d' % len(f.alias): f.alias})
        eq([f.text, f.index], [l.name, every.index(l)], 'language')
    eq([aspect.x_uni.index, aspect.x_psa.index], [8000, 9001], 'custom languages')
    eq(len({f.index for f in aspect}), len(LANGS), 'indices')
    return True
  ctx.enum('all', [0], all_of)
