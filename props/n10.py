"""N10: deromanization never fails and follows the language's letter rules."""
import re
import unicodedata

from props.n08_util import ASPIRATED, CONSONANTS, DEAD, EOW, BOW, Rule, show, s, outputs

DIR = 'nisaba/scripts/natural_translit/deromanization/'
TARGETS = ['//%s:%s' % (DIR[:-1], n) for n in ('hi_deva', 'hi_iso', 'ta_taml', 'ta_iso')] + [
    '//nisaba/scripts/brahmic:iso']
RULE = ('Random strings of Latin letters (syllables in the usual romanizations, loose letters) and every string of up to '
        'three letters, compared with a reference model of the mappings, between ISO and native script and between byte '
        'and code-point grammars. Non-trivial: more than one letter, not only vowels.')
V = 'aeiou'
LONG = dict(zip(V, 'aa ee ii oo uu'.split()))
ASP = dict(zip('b c d g j k p t'.split(), 'bh ch dh gh jh kh ph th'.split()))
SCH = '(?:%s)' % '|'.join('`%s`' % v[0] for d in (CONSONANTS, ASPIRATED) for v in d.values())
ONSET = '(?:%s)' % '|'.join('`%s`' % v[0] for d in (CONSONANTS, ASPIRATED, DEAD) for v in d.values())
VOWEL = '(?:<a>|<e>|<i>|<o>|<u>)'


def lat(text):
  return ''.join('<%s>' % c for c in text)


def tr(names):
  return ''.join('`%s`' % n for n in names.split())


class Cons:
  """One consonant mapping, with its derived forms."""

  def __init__(self, rom, brh, frg=None):
    self.rom, self.brh, self.frg = [rom], brh, frg
    self.rom_l = [rom * 2] + ([rom[0] + rom] if len(rom) > 1 else [])
    self.rom_h = [rom + 'h']
    self.asp = ASP.get(brh)
    self.rom_l_h = [r + 'h' for r in self.rom_l]
    self.rom_h_l = [(rom + 'h') * 2]


HI = dict(
    schwa=True, long='eo', diph={'ai': 'ai', 'au': 'au'},
    asp=[Cons(*p.split('=')) for p in 'b=b ch=c d=d g=g j=j k=k p=p t=t'.split()], drop=[], gem=[], high=[],
    plain=[Cons(r, b) for r, b in [p.split('=') for p in 'c=c h=h l=l m=m n=n q=k r=r s=s sh=sh v=v w=v y=y'.split()]
           + [('x', 'k vir s')]],
    foreign=[Cons('f', 'ph', 'f'), Cons('z', 'j', 'z')])
TA = dict(
    schwa=False, long='', diph={'ai': 'ai', 'au': 'au', 'ae': 'ee', 'oa': 'oo'}, asp=[],
    drop=[Cons(*p.split('=')) for p in 'b=p ch=c d=t g=k j=j k=k p=p t=t'.split()], gem=[Cons('tr', 'rr')],
    plain=[Cons(r, b) for r, b in [p.split('=') for p in 'c=c h=h l=l m=m n=n q=k r=r s=s sh=sh v=v w=v y=y'.split()]
           + [('x', 'k vir s')]], high=[Cons('zh', 'lr')],
    foreign=[Cons('f', 'ph', 'f'), Cons('z', 'j', 'z')])


def double(name):
  return '%s vir %s' % (name, name)


def rules(lang):
  """Latin letters to names of Brahmic characters."""
  res = []

  def cons(items, roms, brh):
    """Consonants before vowels, or with a virama, or left as they are."""
    pairs = [(lat(r), brh(c)) for c in items for r in roms(c)]
    if not pairs:
      return
    if lang['schwa']:
      res.append(Rule([(o, tr(n)) for o, n in pairs]))
    else:
      res.append(Rule([(o, tr(n)) for o, n in pairs], fol=VOWEL))
      res.append(Rule([(o, tr(n + ' vir')) for o, n in pairs]))

  cons(lang['high'], lambda c: c.rom_l, lambda c: double(c.brh))
  cons(lang['high'], lambda c: c.rom, lambda c: c.brh)
  if lang is HI:
    res.append(Rule([('<m>', '`ans`')], VOWEL, '<b>|<p>'))
    res.append(Rule([('<n>', '`ans`')], VOWEL, '(?:%s)|%s' % ('|'.join('<%s>' % c for c in 'bcdfghjklpqrstvwxyz'), EOW)))
  cons(lang['foreign'], lambda c: c.rom_l, lambda c: double(c.frg))
  cons(lang['foreign'], lambda c: c.rom, lambda c: c.frg)
  for n in (2, 1):
    drop = [c for c in lang['drop'] if len(c.rom[0]) == n]
    cons(drop, lambda c: c.rom_h_l, lambda c: double(c.brh))
    cons(drop, lambda c: c.rom_h, lambda c: c.brh)
  for n in (2, 1):
    asp = [c for c in lang['asp'] if len(c.rom[0]) == n]
    cons(asp, lambda c: c.rom_l_h, lambda c: '%s vir %s' % (c.brh, c.asp))
    cons(asp, lambda c: c.rom_h_l, lambda c: double(c.asp))
    cons(asp, lambda c: c.rom_h, lambda c: c.asp)
  cons(lang['gem'], lambda c: c.rom_l, lambda c: double(c.brh))
  for n in (2, 1):
    base = [c for k in ('asp', 'drop', 'plain', 'gem', 'foreign') for c in lang[k] if len(c.rom[0]) == n]
    cons(base, lambda c: c.rom_l, lambda c: double(c.brh))
    cons(base, lambda c: c.rom, lambda c: c.brh)

  def vowels(pairs):
    res.append(Rule([(lat(o), tr(n)) for o, n in pairs], SCH))
    res.append(Rule([(lat(o), tr(n + '_i')) for o, n in pairs]))
  vowels([(v + v, LONG[v]) for v in V])
  vowels(lang['diph'].items())
  if lang['long']:
    vowels([(v, LONG[v]) for v in lang['long']])
  vowels([(v, v) for v in V])
  if lang['schwa']:
    res.append(Rule([('', '`vir`')], BOW + SCH, ONSET))
    res.append(Rule([('`a`', '`aa`')], fol=EOW))
    res.append(Rule([('', '`vir`')], SCH, ONSET + EOW))
  return res


def iso_rules(lang):
  signs = '(?:%s|`vir`)' % '|'.join('`%s`' % n for n in 'a aa e ee i ii o oo u uu ai au'.split())
  ind = sorted(set(V) | set(LONG.values()) | set(lang['diph'].values()))
  return [Rule([('', '`a`')], SCH), Rule([('`a`', '')], fol=signs), Rule([('`%s_i`' % n, '`%s`' % n) for n in ind], BOW)]


def tables():
  iso = {'vir': '', 'ans': 'ṁ', 'a': 'a', 'aa': 'ā', 'e': 'e', 'ee': 'ē', 'i': 'i', 'ii': 'ī', 'o': 'o', 'oo': 'ō',
         'u': 'u', 'uu': 'ū', 'ai': 'ai', 'au': 'au'}
  for n in list(iso)[2:]:
    iso[n + '_i'] = '.' + iso[n]
  for d in (CONSONANTS, ASPIRATED):
    iso.update({name: g for g, (name, _) in d.items()})
  names = ('vir a a_i aa aa_i e e_i ee ee_i i i_i ii ii_i o o_i oo oo_i u u_i uu uu_i ai ai_i au au_i').split()
  deva = dict(zip(names, '्||अ|ा|आ|ॆ|ऎ|े|ए|ि|इ|ी|ई|ॊ|ऒ|ो|ओ|ु|उ|ू|ऊ|ै|ऐ|ौ|औ'.split('|')))
  taml = dict(zip(names, '்||அ|ா|ஆ|ெ|எ|ே|ஏ|ி|இ|ீ|ஈ|ொ|ஒ|ோ|ஓ|ு|உ|ூ|ஊ|ை|ஐ|ௌ|ஔ'.split('|')))
  deva.update(b='ब', bh='भ', c='च', ch='छ', d='द', dh='ध', g='ग', gh='घ', h='ह', j='ज', z='ज़', jh='झ', k='क', kh='ख',
              l='ल', m='म', n='न', p='प', ph='फ', f='फ़', r='र', s='स', sh='श', t='त', th='थ', v='व', y='य', ans='ं')
  taml.update(c='ச', h='ஹ', j='ஜ', z='ஃஜ', k='க', l='ல', lr='ழ', m='ம', n='ந', na='ன', p='ப', f='ஃப', r='ர', rr='ற',
              s='ஸ', sh='ஶ', t='த', v='வ', y='ய')
  return iso, deva, taml


def subs(tier):
  return ['hi', 'ta']


def run(ctx):
  from lib import fst as f
  from lib.pbt import eq, fail, st
  lang, script = (HI, 'deva') if ctx.sub == 'hi' else (TA, 'taml')
  iso, *native = tables()
  native = native[ctx.sub == 'ta']
  steps, to_iso = rules(lang), iso_rules(lang)

  def rule(name, key):
    return [f.far(DIR + name + e + '.far')[key] for e in ('', '_utf8')]
  iso_fst, iso8 = rule(ctx.sub + '_iso', 'ISO')
  nat_fst, nat8 = rule('%s_%s' % (ctx.sub, script), script.upper())
  conv = f.far('nisaba/scripts/brahmic/iso.far')['TO_' + script.upper()]

  def spell(words, table):
    return sorted({''.join(table[show(c)[1:-1]] for c in w) for w in words})

  def one(word, cheap=False):
    cur = {s(lat(word))}
    for r in steps:
      cur = r(cur)
    want = spell(cur, native)
    got = outputs(nat_fst, word)
    if len(got) != 1:
      fail('not exactly one native result', word=word, got=got)
    eq(got, want, 'native result', word=word)
    for r in to_iso:
      cur = r(cur)
    got_iso = outputs(iso_fst, word)
    eq(got_iso, spell(cur, iso), 'ISO result', word=word)
    if not cheap:
      eq(outputs(nat8, word, True), got, 'native result of the code-point grammar', word=word)
      eq(outputs(iso8, word, True), got_iso, 'ISO result of the code-point grammar', word=word)
      back = f.apply(got_iso[0], conv)
      if back is None:
        fail('the ISO result is not an ISO word', word=word, iso=got_iso[0])
      eq(unicodedata.normalize('NFC', back), unicodedata.normalize('NFC', got[0]), 'ISO result in the native script',
         word=word)
    return len(word) > 1 and re.search('[^aeiou]', word)
  syllable = st.tuples(
      st.sampled_from('b c d f g h j k l m n p q r s t v w x y z bh ch chh cch chch dh gh jh kh ph th sh ssh shsh zh zzh tr trtr '
                      'ttr ng nk mp mb nd nt kk kkh bb ddh tth pph ff zz rr ll str pr ksh gn xx hh yy'.split() + [''] * 3),
      st.sampled_from('a a a aa e ee i ii o oo u uu ai au ae oa ea aaa eee oo'.split() + [''] * 3)).map(''.join)
  word = st.one_of(*[st.lists(syllable, min_size=1, max_size=6).map(''.join)] * 3,
                   st.text('abcdefghijklmnopqrstuvwxyz', min_size=1, max_size=8))
  ctx.check('words', word, one, ctx.n(700, 20000))
  low = 'abcdefghijklmnopqrstuvwxyz'
  small = [a + b + c for a in [''] + list(low) for b in [''] + list(low) for c in low if a == '' or b]
  step = 1 if ctx.thorough else 4
  ctx.enum('short', [w for i, w in enumerate(small) if i % step == ctx.seed % step or len(w) < 3], lambda w: one(w, True))
