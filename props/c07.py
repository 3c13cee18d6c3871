"""C07: the Brahmic grammars in C++."""
import functools
import os

from lib import brahmic as M
from lib import cc, fst, gen
from lib.pbt import eq, fail, st

TARGETS = [r'//nisaba/scripts/brahmic:py!natural_translit/romanization/.*\.far'] + [
    '//nisaba/scripts/brahmic:%s.far' % f for f in (
        'fixed', 'fixed_utf8', 'iso', 'iso_utf8', 'nfc', 'nfc_utf8', 'visual_norm', 'visual_norm_utf8',
        'wellformed', 'wellformed_utf8', 'reading_norm', 'reading_norm_utf8')]
RULE = (
    'The C++ sources are compiled from the working tree under an address sanitizer and, with a '
    'mutex that perturbs the schedule, under a thread sanitizer, and read the archives built from '
    'the working tree. Cases: words as for the Python operations, for every script and language tag '
    'in any case, through grammars, normalizers, reading norms and archives; generated histories of '
    'making, loading, verifying, sharing, using and deleting them; several threads with one object '
    'or with many. Oracle: the reference models of the operations, a model of which names resolve '
    'to which rules, and of which objects are loaded. Non-trivial: the text changes or is rejected; '
    'the history shares a manager or loads twice; several threads.')

SOURCES = ['nisaba/scripts/brahmic/grammar.cc', 'nisaba/scripts/brahmic/far.cc',
           'nisaba/scripts/utils/far_base.cc',
           'nisaba/interim/grm2/thrax/walker/util/function/symbols.cc', 'nisaba/port/file_util.cc']
DIR = 'com_google_nisaba/nisaba/scripts/brahmic'
LANGS = {'bn': 'Beng', 'gu': 'Gujr', 'hi': 'Deva', 'kn': 'Knda', 'ml': 'Mlym', 'mr': 'Deva',
         'or': 'Orya', 'pa': 'Guru', 'si': 'Sinh', 'ta': 'Taml', 'te': 'Telu'}
# Rules for a language: its script.
OWN = {('visual_norm', 'AS'): 'Beng', ('visual_norm', 'BN'): 'Beng', ('reading_norm', 'HI'): 'Deva'}


def prepare(scratch, env, tier):
  def one(name, san):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    env['CC_' + name] = cc.build(
        d, 'grammar', SOURCES, san=san,
        cflags=['-DEXPAND=EXPAND_FILTER', '-DVERIF_SYNC_FST', '-include',
                os.path.join(cc.HERE, 'cc/sync.h')])
  with cc.cf.ThreadPoolExecutor(2) as ex:
    list(ex.map(lambda a: one(*a), [('asan', 'address'), ('tsan', 'thread')]))


def subs(tier):
  return ['asan_words%d' % i for i in range(4)] + [
      'asan_names', 'asan_history', 'asan_far', 'tsan_threads']


def run(ctx):
  kind, what = ctx.sub.rstrip('0123').split('_')
  ctx.schedules = kind == 'tsan'
  env = {'RUNFILES_DIR': os.environ['TREE']}
  p = cc.Proc(os.environ['CC_' + kind], timeout=60, env=env)
  if kind == 'tsan':
    p = cc.tsan_proc(p)
  try:
    globals()['run_' + what](ctx, p)
  finally:
    p.close()


@functools.lru_cache(maxsize=None)
def keys(far):
  return frozenset(fst.far('nisaba/scripts/brahmic/%s.far' % far))


def resolve(far, name):
  """The rule a name stands for in an archive, or None."""
  far = far.lower()
  n = name.upper()
  if n in keys(far):
    return n
  script = LANGS.get(n.lower(), '').upper()
  return script if script in keys(far) else None


def script_of(far, rule):
  own = OWN.get((far.lower(), rule))
  return (own, rule.lower()) if own else (rule.capitalize(), None)


def visual(rule, text):
  s, l = script_of('visual_norm', rule)
  return M.visual(s, text, l)


def reading(rule, text):
  s, l = script_of('reading_norm', rule)
  return M.reading(s, text, l)


def apply_rule(far, rule, text):
  """The outputs among which a rewrite may choose; empty: rejected."""
  far = far.lower()
  if far == 'visual_norm':
    return [visual(rule, text)]
  if far == 'reading_norm':
    return [reading(rule, text)]
  if far == 'wellformed':
    return [text] if M.wellformed(rule.capitalize(), text) else []
  if far == 'iso' and rule.startswith('FROM_') and rule != 'FROM_BRAHMIC':
    return list(M.script_to_iso(rule[5:].capitalize(), text))
  return list(fst.best_outputs(text, fst.far('nisaba/scripts/brahmic/%s.far' % far)[rule]))


def check_out(got, want, what, **kw):
  got = got.decode('utf8')
  if not want:
    if not got.startswith('!'):
      fail(what + ': accepted', want='rejected', result=got, **kw)
  elif got[:1] != '=' or got[1:] not in want:
    fail(what, result=got, want=want, **kw)


# Not UTF-8: never well-formed. (The visual norm, over bytes, may pass them on.)
BAD = [b'\xff', b'\xe0\xa4', b'\xe0\xa4\x95\xe0', b'\xc0\x80', b'\xed\xa0\x80']


def cased(names):
  """A name, in any mixture of cases."""
  return st.tuples(st.sampled_from(sorted(names)), st.integers(0, 1 << 12)).map(
      lambda a: ''.join(c.upper() if a[1] >> i & 1 else c.lower() for i, c in enumerate(a[0])))


def run_words(ctx, p):
  for s in M.SCRIPTS[int(ctx.sub[-1])::4]:
    tags = [s] + [l for l in LANGS if LANGS[l] == s]
    p.ok('clear')
    for t in tags:
      p.ok('normalizer', 'n' + t, t)
      eq(p.ok('load', 'n' + t), [b'ok'], 'loading the normalizer of ' + t)
      for far in ('visual_norm', 'wellformed'):
        p.ok('grammar', far + t, far, t)
        eq(p.ok('load', far + t), [b'ok'], 'loading %s of %s' % (far, t))
      if resolve('reading_norm', t):
        p.ok('reading', 'r' + t, t)
        eq(p.ok('load', 'r' + t), [b'ok'], 'loading the reading norm of ' + t)
    p.ok('grammar', 'iso', 'iso', 'from_' + s)
    eq(p.ok('load', 'iso'), [b'ok'], 'loading iso of ' + s)

    def one(case, s=s):
      t, w = case
      v = visual(resolve('visual_norm', t), w)
      wf = M.wellformed(s, v)
      g = p.ok
      check_out(g('rewrite', 'visual_norm' + t, w)[0], [v], 'visual norm of ' + t, input=w)
      check_out(g('normalize', 'n' + t, w)[0], [v], 'NormalizeOnly of ' + t, input=w)
      check_out(g('rewrite', 'n' + t, w)[0], [v] if wf else [], 'Normalizer of ' + t, input=w)
      ok = M.wellformed(s, w)
      check_out(g('rewrite', 'wellformed' + t, w)[0], [w] if ok else [], 'well-formedness', input=w)
      eq(g('accept', 'wellformed' + t, w)[0][:1], b'=' if ok else b'!', 'Accept of ' + t, input=w)
      g('accept', 'visual_norm' + t, w)
      if resolve('reading_norm', t):
        r = reading(resolve('reading_norm', t), v)
        check_out(g('rewrite', 'r' + t, w)[0], [r], 'ReadingNorm of ' + t, input=w)
      if t == s:
        want = M.script_to_iso(s, w)
        if len(want) < 40:
          check_out(g('rewrite', 'iso', w)[0], list(want), 'romanization', input=w)
      ctx.label('rejected' if not wf else 'normalized' if v != w else 'kept')
      return v != w or not wf

    ctx.check(s, st.tuples(st.sampled_from(tags), st.one_of(gen.any_word(s), gen.any_word(s), st.tuples(
        gen.wellformed(s, 2), gen.foreign(2)).map(''.join))), one, ctx.n(110, 4000))

    def bad(case):
      t, b = case
      p.ok('rewrite', 'visual_norm' + t, bytes(b))
      for o in ['wellformed' + t, 'n' + t]:
        if p.ok('rewrite', o, bytes(b))[0][:1] != b'!':
          fail('accepted text that is not UTF-8', object=o, input=b)
      return True
    ctx.enum(s + '-bytes', [[t, list(a + b)] for t in tags for b in BAD for a in (b'', 'क'.encode())],
             bad)


def run_names(ctx, p):
  names = ({k for f in ('visual_norm', 'wellformed', 'reading_norm', 'iso') for k in keys(f)} |
           set(LANGS) | {'en', 'Latn', 'deva_', '', 'from_', 'hin', 'DEV', 'A' * 200})
  fars = ['visual_norm', 'wellformed', 'reading_norm', 'iso', 'nfc', 'nosuchfar', '']
  exists = lambda f: f.lower() in ('visual_norm', 'wellformed', 'reading_norm', 'iso', 'nfc')

  def load(*new):
    p.ok(*new)
    r = p.ok('load', new[1])[0] == b'ok'
    eq(p.ok('load', new[1])[0] == b'ok', r, 'loading once more', object=new)
    return r

  def grammar(case, paths=False):
    far, name = case
    want = exists(far) and resolve(far, name) is not None
    eq(load('grammar', 'g', far, name), want, 'Grammar loads', case=case)
    if not paths:
      return True
    for path in (DIR, DIR + '/', os.path.join(os.environ['TREE'], DIR)):
      p.ok('grammar', 'g', far, name, path)
      eq(p.ok('load', 'g')[0] == b'ok', want, 'Grammar loads from a path', case=case, path=path)
    p.ok('grammar', 'g', far, name, 'com_google_nisaba/nowhere')
    eq(p.ok('load', 'g')[0] == b'ok', False, 'Grammar loads from nowhere', case=case)
    return True
  odd = ['en', 'Latn', 'deva_', '', 'hin', 'from_', 'NFC']
  some = {'iso': odd + ['FROM_DEVA', 'TO_THAA', 'hi', 'Deva'], 'nfc': odd + ['Deva', 'BRAHMIC', 'bn'],
          'nosuchfar': ['Deva'], '': ['Deva'],
          'visual_norm': odd + sorted(keys('visual_norm')) + sorted(LANGS),
          'wellformed': odd + sorted(keys('wellformed')) + sorted(LANGS),
          'reading_norm': odd + sorted(keys('visual_norm')) + sorted(LANGS) + ['as', 'HI']}
  ctx.enum('grammars', [[f, n] for f in sorted(some) for n in some[f]], grammar)
  ctx.enum('grammars from a path', [[f, n] for f in sorted(some) for n in some[f][-3:]],
           lambda case: grammar(case, True))

  def supports(name):
    want = all(resolve(f, name) is not None for f in ('visual_norm', 'wellformed'))
    eq(p.ok('supports', name), [b'1' if want else b'0'], 'SupportsFst', name=name)
    eq(load('normalizer', 'n', name), want, 'Normalizer loads', name=name)
    if name in ('hi', 'Deva', 'AS', 'en'):
      return paths(name, want)
    want2 = all(resolve(f, name) is not None for f in ('visual_norm', 'reading_norm'))
    eq(load('reading', 'r', name), want2, 'ReadingNorm loads', name=name)
    ctx.label('supported' if want else 'unsupported')
    return True

  def paths(name, want):
    p.ok('normalizer', 'n', name, DIR)
    eq(p.ok('load', 'n')[0] == b'ok', want, 'Normalizer loads from a path', name=name)
    want = all(resolve(f, name) is not None for f in ('visual_norm', 'reading_norm'))
    eq(load('reading', 'r', name), want, 'ReadingNorm loads', name=name)
    p.ok('reading', 'r', name, DIR)
    eq(p.ok('load', 'r')[0] == b'ok', want, 'ReadingNorm loads from a path', name=name)
    ctx.label('supported' if want else 'unsupported')
    return True
  tags = sorted((keys('visual_norm') | set(LANGS)) if not ctx.thorough else names)
  ctx.enum('supports', tags + odd, supports)
  ctx.check('cases', cased(tags), supports, ctx.n(12, 600))
  ctx.check('any case', st.tuples(cased(fars), cased(names)).map(list), grammar, ctx.n(60, 600))

  def path(case):
    d, n = case
    f = n.lower() + '.far' if n.isascii() else ''.join(
        c.lower() if c.isascii() else c for c in n) + '.far'
    want = f if not d or f[0] == '/' else d + f if d.endswith('/') else d + '/' + f
    eq(p.ok('path', d, n)[0].decode('utf8'), want, 'MakeFarFilePath', case=case)
    return bool(d and n)
  part = st.text(alphabet='aB/._é क', max_size=6)
  ctx.check('paths', st.tuples(part, part).map(list), path, ctx.n(500, 5000))

  q = cc.Proc(p.binary, timeout=60, env={'RUNFILES_DIR': ''})
  q.env.pop('RUNFILES_DIR')
  try:
    def nowhere(cmds):
      for c in cmds:
        q.ok(*c)
      if len(cmds) > 1 or cmds[0][0] != 'manager':
        eq(q.ok('load', 'x')[0] == b'ok', False, 'loads without runfiles', case=cmds)
      else:
        eq(q.ok(*cmds[0])[0] == b'ok', False, 'a manager without runfiles', case=cmds)
      return True
    ctx.enum('no runfiles', [[['grammar', 'x', 'iso', 'from_deva']], [['normalizer', 'x', 'deva']],
                             [['reading', 'x', 'hi']], [['far', 'x', 'iso']],
                             [['manager', '@1', 'visual_norm']], [['manager', '@1', 'wellformed']]],
             nowhere)
  finally:
    q.close()


WORDS = ['क', 'काु', 'काङ्ग्रेस', 'गोल्\u200dडबर्ग', 'সংগে', 'কো', 'ক\u09cdৰ', 'ണ\u0d4d\u200d', 'സന്യാസി', 'ക',
         'a', '']


class World:
  """The model of a history."""

  def __init__(self):
    self.objects, self.managers = {}, {}

  # An object: list of parts [archive, name, where, loaded], where: 'own' or a manager.
  def parts(self, kind, name, far=None):
    return [[f, name, None, False] for f in {
        'grammar': [far], 'normalizer': ['visual_norm', 'wellformed'],
        'reading': ['visual_norm', 'reading_norm']}[kind]]

  def drop(self, o):
    self.objects.pop(o, None)
    used = {q[2] for _, ps in self.objects.values() for q in ps}
    for m in list(self.managers):
      if self.managers[m][1] and m not in used:
        del self.managers[m]  # Deleted with its last user.


def run_history(ctx, p):
  tags = ['deva', 'Deva', 'hi', 'mr', 'bn', 'beng', 'as', 'ml', 'MLYM', 'xx', 'Lepc', 'HI']
  op = st.tuples(st.sampled_from(['grammar', 'normalizer', 'reading', 'manager', 'share', 'share',
                                  'share', 'load', 'load', 'verify', 'verify', 'delete', 'delete',
                                  'use', 'use', 'use']),
                 st.integers(0, 3), st.integers(0, 11), st.integers(0, 11)).map(list)

  def one(ops):
    p.ok('clear')
    w = World()
    shared = False

    def use(o):
      kind, ps = w.objects[o]
      for t in WORDS:
        got = p.ok('rewrite', o, t)[0]
        outs = [t]
        for i, (far, name, where, loaded) in enumerate(ps):
          rule = resolve(far, name) if loaded else None
          outs = [x for y in outs for x in apply_rule(far, rule, y)] if rule else []
          if kind == 'normalizer' and i == 0:
            check_out(p.ok('normalize', o, t)[0], outs, 'NormalizeOnly', ops=ops, input=t)
        check_out(got, outs, 'Rewrite', ops=ops, input=t, object=[kind, ps])

    for name, a, b, c in ops:
      o = 'o%d' % a
      if name in ('grammar', 'normalizer', 'reading'):
        w.drop(o)
        p.ok('delete', o)
        tag = tags[b]
        far = ['visual_norm', 'wellformed', 'reading_norm', 'nosuchfar'][c % 4]
        w.objects[o] = (name, w.parts(name, tag, far))
        p.ok(*([name, o, far, tag] if name == 'grammar' else [name, o, tag]))
      elif name == 'manager':
        m = '@%d' % (b % 3)
        if m not in w.managers:
          far = ['visual_norm', 'wellformed'][c % 2]
          eq(p.ok('manager', m, far), [b'ok'], 'loading a manager', ops=ops)
          w.managers[m] = [far, False]
      elif name == 'share' and w.managers:
        m = sorted(w.managers)[b % len(w.managers)]
        n = [x for x in sorted(w.managers) if w.managers[x][0] != w.managers[m][0]]
        # The new object exists before the old one goes, as with an assignment.
        new = 'o%d' % ((a + 1) % 4)
        if new in w.objects:
          w.drop(new)
          p.ok('delete', new)
          if m not in w.managers:
            continue
          n = [x for x in n if x in w.managers]
        tag = tags[c]
        if n and b % 2:
          v, f = (m, n[0]) if w.managers[m][0] == 'visual_norm' else (n[0], m)
          p.ok('normalizer', new, tag, v, f)
          w.objects[new] = ('normalizer', [['visual_norm', tag, v, False], ['wellformed', tag, f, False]])
          w.managers[v][1] = w.managers[f][1] = True
        else:
          p.ok('grammar', new, w.managers[m][0], tag, m)
          w.objects[new] = ('grammar', [[w.managers[m][0], tag, m, False]])
          w.managers[m][1] = True
        shared = True
      elif name in ('load', 'verify') and o in w.objects:
        kind, ps = w.objects[o]
        if name == 'verify' and kind == 'reading':
          continue
        want = True
        for q in ps:
          if q[0] == 'nosuchfar':
            want = False
          elif name == 'load':
            q[3] = True
          elif q[2]:
            q[3] = True  # The manager is loaded: the name is found now.
          if want and not (q[3] and resolve(q[0], q[1])):
            want = False
          if not want:
            break
        eq(p.ok(name, o)[0] == b'ok', want, name, ops=ops, object=[kind, ps])
      elif name == 'delete' and o in w.objects:
        w.drop(o)
        p.ok('delete', o)
      elif name == 'use' and o in w.objects:
        kind, ps = w.objects[o]
        # A language's own name is only looked up when loading or verifying.
        if all(q[3] or q[0] == 'nosuchfar' or not q[2] for q in ps):
          use(o)
    for o in sorted(w.objects):
      kind, ps = w.objects[o]
      if all(q[3] for q in ps):
        use(o)
    p.ok('clear')
    if shared:
      ctx.label('shared')
    if any(n == 'verify' for n, *_ in ops):
      ctx.label('verified')
    return shared or len(ops) > 1 and ops[1][0] == 'verify'

  ctx.check('histories', st.lists(op, min_size=2, max_size=14), one, ctx.n(110, 4000))
  # Verifying before loading fails, and changes nothing.
  ctx.enum('verify first', [[[k, 0, b, c]] + o for b in (1, 2, 3, 4, 6) for k, c in (
      ('grammar', 0), ('grammar', 1), ('grammar', 2), ('normalizer', 0)) for o in (
          [['verify', 0, 0, 0], ['load', 0, 0, 0], ['use', 0, 0, 0]],)], one)
  lead = st.tuples(st.sampled_from(['manager']), st.just(0), st.integers(0, 2), st.integers(0, 1)).map(list)
  ctx.check('sharing', st.tuples(st.lists(lead, min_size=2, max_size=3),
                                 st.lists(op, min_size=3, max_size=12)).map(lambda a: a[0] + a[1]),
            one, ctx.n(160, 4000))


def run_far(ctx, p):
  fars = ['visual_norm', 'wellformed', 'nfc', 'iso', 'reading_norm', 'fixed']

  def one(case):
    far, utf8, rule, text, keep, mask = case
    name = far + ('_utf8' if utf8 else '')
    mixed = ''.join(c.upper() if mask >> i % 12 & 1 else c for i, c in enumerate(name))
    ks = sorted(k for k in fst.far('nisaba/scripts/brahmic/%s.far' % name) if not k.startswith('TO_'))
    rule = ks[rule % len(ks)]
    p.ok('far', 'f', mixed)
    eq(p.ok('load', 'f'), [b'ok'], 'Far loads', name=mixed)
    eq(p.ok('best', 'f', 'no such rule', 'byte', 'x'), [b'none'], 'a rule that does not exist')
    ask = ''.join(c.lower() if mask >> i % 12 & 1 else c for i, c in enumerate(rule))
    if keep:
      eq(p.ok('keep', 'f', ask), [b'ok'], 'the rule is found', name=ask)
    got = p.ok('best', 'f', ask, 'utf8' if utf8 else 'byte', text)[0]
    p.ok('delete', 'f')
    want = fst.best_outputs(text, fst.far('nisaba/scripts/brahmic/%s.far' % name)[rule], utf8)
    check_out(got, list(want), 'the rule differs from the one in Python', case=case)
    return bool(want) and want != {text}
  words = st.sampled_from(M.SCRIPTS).flatmap(lambda s: gen.any_word(s))
  ctx.check('rules', st.tuples(st.sampled_from(fars), st.booleans(), st.integers(0, 60), words,
                               st.booleans(), st.integers(0, 4095)).map(list), one, ctx.n(300, 6000))

  def aimed(a):
    s, far, utf8, w, keep, mask = a
    name = far + ('_utf8' if utf8 else '')
    ks = sorted(k for k in fst.far('nisaba/scripts/brahmic/%s.far' % name) if not k.startswith('TO_'))
    i = next((i for i, k in enumerate(ks) if k.endswith(s.upper())), 0)
    return [far, utf8, i, w, keep, mask]
  ctx.check('own script', st.sampled_from(M.SCRIPTS).flatmap(lambda s: st.tuples(
      st.just(s), st.sampled_from(fars[:4]), st.booleans(), gen.any_word(s), st.booleans(),
      st.integers(0, 4095))).map(aimed), one, ctx.n(300, 6000))

  def missing(name):
    p.ok('far', 'f', name)
    eq(p.ok('load', 'f')[0] == b'ok', False, 'an archive that does not exist loads', name=name)
    eq(p.ok('best', 'f', 'DEVA', 'byte', 'x'), [b'none'], 'a rule of an archive not loaded')
    return True
  ctx.enum('missing', ['nosuchfar', '', '..', 'iso.far', 'BUILD.bazel'], missing)


def run_threads(ctx, p):
  def one(case):
    seed, threads, objs, words = case
    p.ok('clear')
    for i, (kind, tag) in enumerate(objs):
      o = 'o%d' % i
      p.ok(*([kind, o, tag] if kind != 'grammar' else [kind, o, 'visual_norm', tag]))
      eq(p.ok('load', o), [b'ok'], 'loading', case=case)
    got = p.ok('threads', '*', 'rewrite', seed, threads, *words)
    for i, w in enumerate(words):
      kind, tag = objs[i % len(objs)]
      v = visual(resolve('visual_norm', tag), w)
      if kind == 'reading':
        want = [reading(resolve('reading_norm', tag), v)]
      elif kind == 'normalizer':
        want = [v] if M.wellformed(resolve('wellformed', tag).capitalize(), v) else []
      else:
        want = [v]
      check_out(got[i], want, 'with several threads', input=w, case=case)
    return threads > 1
  obj = st.one_of(st.tuples(st.sampled_from(['normalizer', 'grammar']),
                            st.sampled_from(['hi', 'bn', 'ml', 'Deva', 'Taml'])),
                  st.tuples(st.just('reading'), st.sampled_from(['hi', 'bn', 'ml', 'lepc']))).map(list)
  word = st.one_of(st.sampled_from(WORDS[:-1]), st.sampled_from(['Deva', 'Beng', 'Mlym']).flatmap(gen.any_word))
  ctx.check('threads', st.tuples(st.integers(1, 1 << 30), st.integers(2, 6),
                                 st.lists(obj, min_size=1, max_size=3),
                                 st.lists(word, min_size=4, max_size=30)).map(list),
            one, ctx.n(50, 1500))
