"""C10: the command-line tools do with files and flags what the library does."""
import os
import subprocess

from lib import cc
from lib.pbt import eq, fail, st

from props import c04, c06, c08

TARGETS = []
RULE = (
    'The five command-line tools are compiled from the working tree and run on generated files with '
    'generated flags: in any order, in each of the accepted spellings, left out, model files given in the settings, in a settings file or as flags of their own. '
    'Oracle: the models of C06 and C08 for ensembles and decoding; elsewhere the library functions '
    '(which C04 and C06 compare with models) called with the documented meaning of the flags, in a '
    'process of its own, whose output file must be the same. '
    'Missing flags and files that cannot be read or written must end in failure. '
    'Non-trivial: a flag is left out or not at its default.')

TOOLS = 'nisaba/translit/tools/'
COMMON = ['nisaba/port/file_util.cc', 'nisaba/port/utf8_delimiters.cc', 'nisaba/port/unicode_properties.cc',
          'nisaba/port/utf8_util.cc']
GROUPS = {
    'rates': ([TOOLS + 'calculate_error_rate.cc'], [TOOLS + 'calculate_error_rate_main.cc']),
    'kbest': ([TOOLS + 'kbest-full-string-util.cc'],
              [TOOLS + x + '-full-string_main.cc' for x in ('extract-kbest', 'rejoin-kbest', 'ensemble')]),
    'pairlm': ([x for x in c08.SOURCES if x not in COMMON], ['nisaba/translit/fst/pairlm_decoder_main.cc'])}


def prepare(scratch, env, tier):
  def one(name):
    sources, tools = GROUPS[name]
    flags = []
    if name == 'pairlm':
      cc.protoc(scratch, name, [c08.PROTO])
      sources = sources + [os.path.join(scratch, 'cc-pairlm', c08.PROTO.replace('.proto', '.pb.cc'))]
      flags = ['-include', os.path.join(cc.HERE, 'cc/sync.h'), '-DVERIF_SYNC_FST']
    env['CC_' + name] = cc.build(scratch, name, sources + COMMON, san='', opt='-O0', cflags=flags, tools=tools)
  cc._gen(scratch)
  with cc.cf.ThreadPoolExecutor(3) as ex:
    list(ex.map(one, GROUPS))


def subs(tier):
  return ['rates', 'extract', 'rejoin', 'ensemble', 'decoder', 'failures']


def run(ctx):
  group = {'rates': 'rates', 'decoder': 'pairlm'}.get(ctx.sub, 'kbest')
  p = cc.Proc(os.environ['CC_' + group])
  try:
    globals()['run_' + ctx.sub](ctx, p)
  finally:
    p.close()


tmp = c06.tmp


def tool(name, args):
  """The tool's exit status; it hasn't more than a minute."""
  group = next(g for g, (_, ts) in GROUPS.items() if any(os.path.basename(t) == name + '.cc' for t in ts))
  binary = os.path.join(os.path.dirname(os.environ['CC_' + group]), name)
  e = dict(os.environ)
  e.pop('LD_LIBRARY_PATH', None)
  try:
    r = subprocess.run([binary] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=e, timeout=60)
  except subprocess.TimeoutExpired:
    fail('no end within 60 s', tool=name, args=args)
  return r.returncode, r.stdout.decode('utf8', 'replace')[-600:]


def slurp(name):
  with open(tmp(name), 'rb') as f:
    return f.read().decode('utf8', 'replace')


def clean():
  for n in ('out', 'want'):
    if os.path.exists(tmp(n)):
      os.unlink(tmp(n))


def spelled(flags, how):
  """flags: {name: value}; how: choices of spelling and order."""
  args = []
  for i, (name, value) in enumerate(flags.items()):
    h = how[i % len(how)] + i
    dash = '-' if h % 5 == 4 else '--'
    if isinstance(value, bool):
      word = [['true', 'false'], ['1', '0'], ['yes', 'no']][h % 3][not value]
      one = [dash + ('' if value else 'no') + name] if h % 2 else ['%s%s=%s' % (dash, name, word)]
    elif h % 3 == 0:
      one = [dash + name, str(value)]
    else:
      one = ['%s%s=%s' % (dash, name, value)]
    args.append((how[(i + 1) % len(how)], one, value))
  args.sort(key=lambda a: a[0])
  return [x for _, one, _ in args for x in one]


HOW = st.lists(st.integers(0, 30), min_size=5, max_size=8)
MAYBE = st.sampled_from([None, True, False])


def given(flags):
  return {k: v for k, v in flags.items() if v is not None}


def call(name, flags, how, case):
  """Runs the tool, which must succeed."""
  args = spelled(given(flags), how)
  status, text = tool(name, args)
  eq(status, 0, 'exit status', args=args, text=text, case=case)
  return args


def same(name, flags, how, case):
  """Runs the tool; its output must be that of the library, in the file 'want'."""
  args = call(name, flags, how, case)
  eq(slurp('out'), slurp('want'), 'output of the tool and of the library', args=args, case=case)


def run_rates(ctx, p):
  def fn(case):
    (refs, tests), split, pairs, how = case
    clean()
    names = c04.write('r', refs), c04.write('t', tests)
    p.ok('rate', int(split is not False), int(pairs is True), tmp('want'), *names)
    same('calculate_error_rate_main', {
        'reference': names[0], 'testfile': names[1], 'ofile': tmp('out'), 'split_chars': split,
        'pairwise_edits': pairs}, how, case)
    return split is not True or pairs is not False
  ctx.check('rates', st.tuples(c04.files(), MAYBE, MAYBE, HOW).map(list), fn, ctx.n(250, 3000))


def run_extract(ctx, p):
  def fn(case):
    lattice, k, scores, full, how = case
    clean()
    name = c06.write('in', c06.lattice_lines(lattice))
    p.ok('extractout', name, 20 if k is None else k, tmp('want'), int(scores is True), int(full is True))
    same('extract-kbest-full-string_main', {
        'ifile': name, 'ofile': tmp('out'), 'kbest': k, 'show_score': scores,
        'show_full_input_string': full}, how, case)
    return k != 20
  ctx.check('extract', st.tuples(
      c06.lattices(), st.sampled_from([None, None, 1, 2, 3, 20]), MAYBE, MAYBE, HOW).map(list), fn, ctx.n(250, 3000))


def run_rejoin(ctx, p):
  def fn(case):
    parts, k, how = case
    clean()
    lines = c06.write('in', ['%s\t%s\t%r' % (i, s, c) for g in parts for i, cands in g for s, c in cands])
    split = c06.write('split', [str(n) for n, g in enumerate(parts) for _ in g])
    p.ok('rejoin', -1 if k is None else k, tmp('want'), lines, split)
    same('rejoin-kbest-full-string_main', {
        'ifile': lines, 'ofile': tmp('out'), 'split_file': split, 'kbest': k}, how, case)
    return k != -1
  ctx.check('rejoin', st.tuples(c06.groups(), st.sampled_from([None, None, 1, 2, 3, 20, -1]), HOW).map(list),
            fn, ctx.n(250, 3000))


def run_ensemble(ctx, p):
  def fn(case):
    (outs, lengths, k), default, how = case
    clean()
    every = c06.expected(outs, lengths)
    if every is None:
      return False
    names, lens = c06.write_systems(outs, lengths)
    call('ensemble-full-string_main', {
        'ifiles': names, 'ofile': tmp('out'), 'input_length_file': lens or None,
        'kbest': None if default else k}, how, case)
    c06.judge_files(every, 20 if default else k, case)
    return default or lengths is not None
  ctx.check('ensemble', st.tuples(c06.systems(), st.booleans(), HOW).map(list), fn, ctx.n(250, 3000))


def run_decoder(ctx, p):
  def fn(case):
    (m, k, lines), (where, pair, lm, default), workers, how = case
    clean()
    text = c06.write('text', lines)
    config = c08.options(p, m)
    flags = {'ifile': text, 'ofile': tmp('out'), 'kbest': None if default else k, 'num_workers': workers}
    rest = config.split('\n')
    for line in list(rest):
      for key, move, flag in (('pairlm_file: ', pair, 'input_pairlm_fst_file'), ('lm_file: ', lm, 'input_lm_fst_file')):
        if line.startswith(key) and move:
          flags[flag] = tmp('pair.fst' if key[0] == 'p' else 'lm.fst')
          if move == 'instead':  # The flag overrides the settings.
            rest[rest.index(line)] = key + '"%s"' % tmp('nodir/x.fst')
          else:
            rest.remove(line)
    rest = ' '.join(rest)
    if where == 'file':
      flags['pairlm_config_file'] = c06.write('config', [rest])
    elif rest:
      flags['pairlm_config'] = rest
    call('pairlm_decoder_main', flags, how, case)
    c08.judge_file(m, 1 if default else k, lines, case)
    return any(f.startswith('input_') for f in flags)
  ways = st.sampled_from([None, 'instead', 'only'])
  ctx.check('decoder', st.tuples(
      st.one_of(c08.model(False), c08.model(True), c08.model(True)),
      st.tuples(st.sampled_from(['text', 'file']), ways, ways, st.booleans()).map(list),
      st.sampled_from([None, None, 1, 3]), HOW).map(list), fn, ctx.n(300, 3000))


GOOD = {
    'calculate_error_rate_main': {'reference': ['0\ta'], 'testfile': ['0\tb'], 'ofile': None},
    'extract-kbest-full-string_main': {'ifile': ['0\t0\ta\tb\t1'], 'ofile': None},
    'rejoin-kbest-full-string_main': {'ifile': ['0\ta\t1'], 'split_file': ['0'], 'ofile': None},
    'ensemble-full-string_main': {'ifiles': ['a\tb\t1'], 'input_length_file': ['1'], 'ofile': None},
    'pairlm_decoder_main': {'ifile': ['a b'], 'pairlm_config_file': ['max_word_cands: 2'], 'ofile': None}}
OPTIONAL = {'input_length_file', 'pairlm_config_file'}


def run_failures(ctx, p):
  def fn(case):
    name, flag, kind = case
    clean()
    args = {}
    for f, lines in GOOD[name].items():
      args[f] = tmp('out') if lines is None else c06.write(f, lines)
    if name.startswith('ensemble'):
      args['ifiles'] += ':' + c06.write('second', ['a\tc\t1'])
    if kind == 'left out':
      del args[flag]
    elif kind == 'empty':
      args[flag] = ''
    elif kind == 'unknown':
      args['no_such_flag'] = '1'
    elif kind == 'nonsense':
      args[flag] = c06.write('bad', ['%%% {'])
    elif kind:
      args[flag] = kind if kind.startswith('/') else tmp(kind)
    status, text = tool(name, ['--%s=%s' % x for x in args.items()])
    good = not kind or (kind in ('left out', 'empty') and flag in OPTIONAL)
    if (status == 0) != good:
      fail('exit status', case=case, got=status, text=text)
    if good and not slurp('out'):
      fail('no output', case=case)
    if kind in ('left out', 'empty') and not good and flag != 'ofile' and os.path.exists(tmp('out')) and slurp('out'):
      fail('output without input', case=case, out=slurp('out'))
    return not good
  cases = []
  for name, flags in GOOD.items():
    cases += [[name, '', ''], [name, '', 'unknown']]
    for f, lines in flags.items():
      cases += [[name, f, 'left out'], [name, f, 'empty'], [name, f, 'nodir/x']]
      cases.append([name, f, '/dev/full'] if lines is None else [name, f, 'nonsense'])
  # Any text is a line to transliterate.
  cases = [c for c in cases if c != ['pairlm_decoder_main', 'ifile', 'nonsense']]
  ctx.enum('failures', cases, fn)
