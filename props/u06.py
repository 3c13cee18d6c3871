"""U06: letter and character inventories are exactly those of the sources."""
import json
import os
import unicodedata

from lib import abjad as A
from lib import brahmic as M
from lib import fst
from lib.pbt import eq, fail, raises, sut, st
from props import u05

TARGETS = ['//nisaba/scripts/utils:letter_languages', '//nisaba/scripts/utils:char',
           '//nisaba/scripts/brahmic:char_util', '//nisaba/scripts/brahmic:sigma_utf8.far',
           '//nisaba/scripts/abjad_alphabet:util']
RULE = ('Random letter tables with languages and regions written to files and read back; random '
        'string tables whose characters are collected with derive_chars and compiled with '
        'derive_sigma, tested on every character and on near misses; the characters, consonants, '
        'marks and code-point alphabet of each script against the frozen tables. Non-trivial: '
        'several rows, or a text of two characters or more.')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def subs(tier):
  return ['letters', 'chars', 'scripts', 'published']


def run(ctx):
  if ctx.sub == 'letters':
    letters(ctx)
  elif ctx.sub == 'chars':
    chars(ctx)
  elif ctx.sub == 'scripts':
    scripts(ctx)
  else:
    from nisaba.scripts.utils import letter_languages as ll
    want = json.load(open(HERE + '/spec/letters.json', encoding='utf8'))
    with sut('letter_languages.read_textproto'):
      p = ll.read_textproto('/repo/nisaba/scripts/abjad_alphabet/data/Arab/letter_languages.textproto')
    got = [[i.letter.raw, list(i.language), list(i.region)] for i in p.item]
    def row(k):
      eq(got[k] if k < len(got) else None, want[k] if k < len(want) else None,
         'published letter with its languages and regions', row=k)
      return True
    ctx.enum('letters', range(max(len(got), len(want))), row)
    roman = {a for a, _ in A.table('reversible_roman')}
    def romanizable(k):
      if want[k][0] not in roman:
        fail('a letter of a language has no romanization', letter=want[k][0])
      return True
    ctx.enum('romanizable', range(len(want)), romanizable)


def letters(ctx):
  from google.protobuf import text_format
  from nisaba.scripts.utils import letter_languages as ll
  from nisaba.scripts.utils import letter_languages_pb2 as pb
  near, everything = u05.pool()
  path = os.path.join(ctx.scratch, 'l.textproto')
  code = st.text(alphabet='abcdefghijklmnopqrstuvwxyz', min_size=2, max_size=3)

  def one(rows):
    p = pb.LetterLanguages()
    prefixes, want = [], []
    for c, mode, cut, langs, regions in rows:
      it = p.item.add(language=langs, region=regions)
      words = unicodedata.name(c).split(' ')
      k = cut % len(words)
      pre = ' '.join(words[:k])
      if mode != 0:
        if k and pre not in prefixes:
          if len(prefixes) < 3:
            prefixes.append(pre)
          else:
            k = 0
        it.letter.uname.append(' '.join(words[k:]))
      if mode != 1:
        it.letter.raw = c if mode != 3 else c + 'x'
      want.append((c, list(langs), list(regions)))
    p.uname_prefix.extend(prefixes)
    bad = any(m == 3 for _, m, _, _, _ in rows) or any(
        it.letter.uname and len(u05.resolve(prefixes, it.letter.uname[0])) != 1 for it in p.item)
    with open(path, 'w', encoding='utf8') as f:
      f.write(text_format.MessageToString(p, as_utf8=True))
    if bad:
      if not raises(ValueError, ll.read_textproto, path):
        fail('a bad letter is not rejected', rows=rows)
      return True
    with sut('letter_languages.read_textproto'):
      q = ll.read_textproto(path)
    eq([(i.letter.raw, list(i.language), list(i.region)) for i in q.item], want, 'letters read back',
       prefixes=prefixes)
    return len(rows) > 1

  row = st.tuples(st.one_of(st.sampled_from(near), st.sampled_from(everything)),
                  st.sampled_from([0, 1, 1, 2, 2, 2, 2, 1, 2, 0, 1, 3]), st.integers(0, 7),
                  st.lists(code, max_size=4), st.lists(code.map(str.upper), max_size=2)).map(list)
  ctx.check('letters', st.lists(row, min_size=1, max_size=5), one, ctx.n(3000, 40000))


def chars(ctx):
  import pynini
  from nisaba.scripts.utils import char as uc
  word = st.text(alphabet=st.one_of(
      st.sampled_from('कखग्ािاب\u0654\u064e\u200d\u200c\u200babcéß#-'), st.characters(
          codec='utf-8', exclude_categories=['Cc', 'Zs', 'Zl', 'Zp', 'Cn', 'Co'],
          exclude_characters='[]\\')), min_size=1, max_size=4)
  rows = st.lists(st.lists(word, min_size=1, max_size=3), max_size=5)

  def one(case):
    both, inputs, text = case
    paths, want = [[], []], set()
    for k, files in enumerate((both, inputs)):
      for i, rs in enumerate(files):
        path = os.path.join(ctx.scratch, '%d_%d.tsv' % (k, i))
        with open(path, 'w', encoding='utf8') as f:
          f.write('# commentꙮ\tꙮ\n')
          for r in rs:
            f.write('\t'.join(r) + '\n')
            if not r[0].startswith('#'):
              want.update(*(r[:2] if k == 0 else r[:1]))
        paths[k].append(path)
    with sut('derive_chars'):
      got = uc.derive_chars(both_sides=paths[0], input_side=paths[1])
      eq(set(uc.derive_chars(paths[0])) | set(uc.derive_chars((), paths[1])), want, 'one kind at a time')
    eq(set(got), want, 'characters of the files', both=both, inputs=inputs)
    if want:
      for tt in ('byte', 'utf8'):
        with sut('derive_sigma'), pynini.default_token_type(tt):
          s = uc.derive_sigma(got)
        ok = want | set(M.JOINERS)
        for c in sorted(ok) + [text, text[:1], 'ꙮ', '']:
          if tt == 'utf8' or c:
            eq(fst.accepts(c, s, tt == 'utf8'), c in ok, 'derived alphabet', token_type=tt, char=c)
        eq(s.properties(pynini.ACCEPTOR | pynini.UNWEIGHTED, True),
           pynini.ACCEPTOR | pynini.UNWEIGHTED, 'the alphabet is an unweighted acceptor')
    return len(want) > 2

  ctx.check('files', st.tuples(st.lists(rows, max_size=2), st.lists(rows, max_size=2),
                               st.text(alphabet='कखاab\u200d', min_size=1, max_size=2)), one,
            ctx.n(1500, 20000))


def scripts(ctx):
  from nisaba.scripts.abjad_alphabet import util as au
  from nisaba.scripts.brahmic import char_util as cu
  from pynini.lib import byte
  far = fst.far('nisaba/scripts/brahmic/sigma_utf8.far')

  def script(s):
    with sut('script characters'):
      eq(set(cu.script_chars(s)), set(M.script_chars(s)), 'characters of ' + s)
      eq(set(cu.consonants(s)), {c for a in M.lhs(s, 'consonant') for c in a}, 'consonants of ' + s)
      eq(set(cu.mark_chars(s)), set(M.marks(s)), 'marks of ' + s)
    f = far[s.upper()]
    ok = set(M.script_chars(s)) | set(M.JOINERS)
    for cp in list(range(1, 0x2100)) + list(range(0xa800, 0xac00)) + list(range(0x11400, 0x11700)):
      c = chr(cp)
      eq(fst.accepts(c, f, True), c in ok, 'code-point alphabet of ' + s, char=c)
    return True

  ctx.enum('scripts', M.SCRIPTS, script)

  def arab(_):
    with sut('sigma_from_common_data_files'):
      f = au.sigma_from_common_data_files()
    ok = set(A.alphabet())
    for cp in list(range(1, 0x2100)) + list(range(0xfb00, 0x10000)):
      if not 0xd800 <= cp < 0xe000 and chr(cp) not in '\\':
        eq(fst.accepts(chr(cp), f), chr(cp) in ok, 'Arabic-script alphabet', char=chr(cp))
    return True

  ctx.enum('arab', [0], arab)
  cache = {}

  def dedup(case):
    s, w = case
    if s not in cache:
      with sut('dedup_marks_fst'):
        cache[s] = cu.dedup_marks_fst(s, byte.BYTE)
    got = set(fst.outputs(w, cache[s], limit=3))
    want = M.dedup(s, w)
    eq(got, {want}, 'repeated marks of ' + s, input=w)
    return want != w

  def words(s):
    ms = sorted(M.marks(s))
    return st.tuples(st.just(s), st.lists(st.one_of(st.sampled_from(ms), st.sampled_from(
        M.script_chars(s))).flatmap(lambda c: st.integers(1, 3).map(lambda k: c * k)),
                                          max_size=6).map(''.join))
  ctx.check('dedup', st.sampled_from(['Deva', 'Thaa', 'Lepc', 'Tglg', 'Limb']).flatmap(words), dedup,
            ctx.n(1500, 20000))
