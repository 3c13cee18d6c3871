"""C05: path joining, reading and writing files, File objects, protocol buffer files."""
import os
import stat

from lib import cc
from lib.pbt import eq, fail, st

TARGETS = []
RULE = (
    'The C++ sources are compiled from the working tree with address and undefined-behaviour '
    'sanitizers; names and contents are passed through buffers of exactly the right size that are '
    'freed right after the call. Cases: generated path parts (oracle: POSIX joining), file contents '
    '(empty lines, carriage returns, NULs, any bytes, long lines), sequences of write and of read '
    'operations on File objects against a model of the file, generated messages in text and binary '
    'form, and faults (missing file, missing folder, a folder in place of a file, a full device). '
    'Non-trivial: more than one line, operation or path part; every fault.')


def prepare(scratch, env, tier):
  env['CC_BIN'] = cc.build(scratch, 'files', [
      'nisaba/port/file_util.cc', 'nisaba/port/file.cc', 'nisaba/port/proto_file_stream.cc'])


def subs(tier):
  return ['join', 'lines', 'whole', 'fwrite', 'fread', 'proto', 'faults', 'runfiles']


def run(ctx):
  p = cc.Proc(os.environ['CC_BIN'], env={'RUNFILES_DIR': '/the/run'})
  try:
    globals()['run_' + ctx.sub](ctx, p)
  finally:
    p.close()


def path(name):
  return os.path.join(os.environ['TMPDIR'], name)


def put(name, data):
  with open(path(name), 'wb') as f:
    f.write(data)
  return path(name)


def run_join(ctx, p):
  part = st.lists(st.sampled_from(['/', 'a', '.', '..', ' ', 'é', '\\', 'b.txt', '//']), max_size=4).map(''.join)

  def fn(case):
    a, b = case
    eq(p.ok('join', a, b)[0].decode(), os.path.join(a, b), 'joined path', case=case)
    return bool(a and b)
  ctx.check('join', st.tuples(part, part).map(list), fn, ctx.n(1500, 20000))


LINE = st.lists(st.one_of(
    st.sampled_from(['a', 'अ', ' ', '\t', '\r x', '\x0b', '\u2028', '\u0085', '\ufeff', '\0']),
    st.text(st.characters(blacklist_characters='\r\n', blacklist_categories=('Cs',)), max_size=3)),
    max_size=5).map(''.join)


def run_lines(ctx, p):
  def fn(case):
    lines, ends, last, limit = case
    data, want = b'', []
    for i, x in enumerate(lines):
      end = ends[i % len(ends)] if i + 1 < len(lines) or last else ''
      if end == '' and x.endswith('\r'):
        x = x[:-1]
      data += (x + end).encode()
      want.append(x.encode())
    got = p.ok('lines', put('l', data), *([limit] if limit else []))
    eq(got[0], b'lines', 'a file that exists is read')
    want = [x for x in want if x]  # Empty lines are not reported.
    if limit and limit > 0:
      # Lines that do not fit are unspecified from their last fitting byte on.
      want = [x if len(x) < limit else x[:limit - 1] for x in want]
      got = [x if len(w) < limit - 1 or x == w else x[:limit - 1] for x, w in zip(
          got[1:], want + [b''] * 99)] if len(got) - 1 == len(want) else got[1:]
    else:
      got = got[1:]
    eq(got, want, 'lines without their line ends', case=case)
    return len(want) > 1
  ctx.check('lines', st.tuples(
      st.lists(LINE, max_size=6), st.lists(st.sampled_from(['\n', '\r\n', '\n']), min_size=1, max_size=3),
      st.booleans(), st.sampled_from([0, 0, 0, -1, -5, 1000, 32768, 12, 3])).map(list), fn, ctx.n(1500, 20000))

  def long(n):
    x = b'x' * n
    got = p.ok('lines', put('l', x + b'\nend\n'))
    eq(len(got), 3, 'number of lines')
    eq(got[2], b'end', 'the line after a long one')
    if n < 32768:
      eq(got[1], x, 'a long line', length=n)
    return True
  ctx.enum('long', [10, 4095, 4096, 8191, 32000, 32766, 32767, 32768, 40000, 100000], long)


def run_whole(ctx, p):
  def fn(case):
    how, data = case[0], bytes.fromhex(case[1])
    if how in ('write', 'temp'):
      put('w', b'old content, longer than the new one ' * 9)
      r = p.ok(how, path('w') if how == 'write' else 'w', data)
      if how == 'write':
        eq(r, [b'written'], 'writing')
      else:
        eq(r, [b'path', path('w').encode(), path('w').encode()], 'the path of a temporary file')
      with open(path('w'), 'rb') as f:
        eq(f.read().hex(), case[1], 'the file holds what was written', how=how)
    else:
      r = p.ok(how, put('w', data))
      if not data and r[0] == b'error':
        return False  # An empty file may be refused.
      eq(r, [b'content', data], 'content', how=how)
    return len(data) > 1
  ctx.check('whole', st.tuples(
      st.sampled_from(['write', 'temp', 'binary', 'text']),
      st.one_of(st.binary(max_size=40), st.lists(st.sampled_from(
          [b'\r\n', b'\n', b'\r', b'\0', b'\x1a', b'\xff', b'a', b'\xef\xbb\xbf', b'ab' * 3000]),
          max_size=8).map(b''.join)).map(bytes.hex)).map(list), fn, ctx.n(1500, 20000))


DATA = st.one_of(st.binary(max_size=12), st.sampled_from([b'', b'\n', b'a\n', b'x' * 5000, b'\0'])).map(bytes.hex)


def run_fwrite(ctx, p):
  op = st.tuples(st.sampled_from(['w', 'd', 's', 'l', 'f', 'size', 'name', 'open', 'flags']), DATA).map(list)

  def fn(case):
    old, mode, ops, status = case
    model = bytes.fromhex(old) if mode == 'a' else b''
    name = put('f', bytes.fromhex(old))
    args, want = [], []
    for o, x in ops:
      x = bytes.fromhex(x)
      args += [o, x]
      if o in 'wdslf':
        model += x + (b'\n' if o == 'l' else b'')
        want.append({'w': b'%d' % len(x), 's': b'%d' % len(x), 'd': b'd'}.get(o, b'1'))
      else:
        want.append({'size': b'%d' % len(model), 'name': name.encode(), 'open': b'1',
                     'flags': b'0'}[o])
    want += [b'0', b'1', b'0'] if status else [b'-', b'1', b'0']
    got = p.ok('fwrite', name, mode, *args, 'status' if status else 'plain')
    eq(got, want, 'results of the operations', case=case)
    with open(name, 'rb') as f:
      eq(f.read(), model, 'the file afterwards', case=case)
    eq(p.ok('exists', name), [b'1'], 'exists')
    eq(p.ok('delete', name), [b'1'], 'deleted')
    eq(os.path.exists(name), False, 'gone')
    eq(p.ok('exists', name), [b'0'], 'does not exist')
    eq(p.ok('delete', name), [b'0'], 'not deleted twice')
    return len(ops) > 1
  ctx.check('fwrite', st.tuples(DATA, st.sampled_from('wa'), st.lists(op, max_size=8),
                                st.booleans()).map(list), fn, ctx.n(1200, 20000))


def run_fread(ctx, p):
  op = st.tuples(st.sampled_from('rlsd'), st.sampled_from([0, 1, 2, 3, 5, 9, 40, 6000])).map(list)
  data = st.lists(st.sampled_from([b'\n', b'a', b'bc', b'\r\n', b'\xff', b'x' * 30, b'y' * 4095]), max_size=10).map(
      b''.join).map(bytes.hex)

  def fn(case):
    data, how, ops = case
    left = bytes.fromhex(data)
    name = put('f', left)
    args, want = [], []
    for o, n in ops:
      if o == 'l' and n < 2:
        n = 2
      args += [o, n]
      if o == 'l':
        i = left.find(b'\n')
        k = min(n - 1, len(left) if i < 0 else i + 1)
        want.append(b'=' + left[:k] if left else b'null')
      elif o == 'd' and n > len(left):
        want.append(b'fatal')
        break
      else:
        k = min(n, len(left))
        want.append(left[:k] if o in 'rd' else b'%d:' % k + left[:k])
      left = left[k:]
    eq(p.ok('fread', name, how, *args), want, 'what was read', case=case)
    return len(ops) > 1 and len(data) > 2
  ctx.check('fread', st.tuples(data, st.sampled_from(['open', 'die', 'odie']),
                               st.lists(op, max_size=8)).map(list), fn, ctx.n(1500, 20000))


def run_proto(ctx, p):
  word = st.one_of(st.text(st.sampled_from('ab"\'\\\n\0éअ\t'), max_size=6), st.just('x' * 9000),
                   st.text(st.characters(blacklist_categories=('Cs',)), max_size=6))

  def fn(case):
    kind, block, words = case
    if kind == 'binary' and any(':' in w or '[' in w for w in words):
      return False  # Might be valid text as well.
    name = path('p')
    r = p.ok('proto', kind, name, block, *words)
    eq(r[0], b'1', 'message written', case=case)
    eq(r[2:4], [b'1', b'1'], 'flushed and closed', case=case)
    eq(int(r[1]), os.path.getsize(name), 'byte count is the size of the file', case=case)
    if not words:
      return False  # An empty file may be refused.
    eq(r[4], b'1', 'message read back', case=case)
    eq(r[5], b'0', 'wrong flags are refused', case=case)
    eq([x.decode() for x in r[6:]], words, 'the message read back', case=case)
    return len(words) > 1
  ctx.check('proto', st.tuples(st.sampled_from(['text', 'binary']),
                               st.sampled_from([-1, 1, 2, 7, 16, 4096]),
                               st.lists(word, max_size=5)).map(list), fn, ctx.n(1200, 15000))

  def bad(data):
    name = put('q', data.encode('latin1'))
    eq(p.ok('protoread', name), [b'0'], 'what is no message is refused', data=data)
    return True
  ctx.enum('bad', ['paths: "a', 'nopaths: "a"', '\xff\xff', '\x0a\x05ab', 'paths: 3', '{'], bad)


def run_faults(ctx, p):
  os.makedirs(path('dir'), exist_ok=True)
  put('plain', b'x')
  missing = path('none')
  nowhere = path('nodir/x')
  inplain = path('plain/x')

  def fn(case):
    op, target = case
    name = {'missing': missing, 'nowhere': nowhere, 'folder': path('dir'), 'inplain': inplain,
            'full': '/dev/full'}[target]
    if op == 'temp':
      name = {'nowhere': 'nodir/x', 'folder': 'dir', 'inplain': 'plain/x', 'full': 'fulllink'}[target]
      if target == 'full' and not os.path.islink(path('fulllink')):
        os.symlink('/dev/full', path('fulllink'))
    if op in ('binary', 'text', 'lines'):
      status, r = p.call(op, name)
      eq((status, r[:1]), ('ok', [b'error']), 'reading is reported as an error', case=case)
    elif op in ('write', 'temp'):
      eq(p.ok(op, name, 'some text')[0], b'error', 'writing is reported as an error', case=case)
    elif op == 'big':
      eq(p.ok('write', name, 'some text' * 9000)[0], b'error', 'writing is reported as an error', case=case)
    elif op == 'fwrite':
      r = p.ok('fwrite', name, 'w', 's', 'some text', 'plain')
      if r != [b'none'] and r[-2] == b'1':
        fail('closing reports success though nothing could be written', case=case)
    elif op == 'fread':
      eq(p.ok('fread', name, 'open', 'r', 3), [b'none'], 'opening', case=case)
      eq(p.call('fread', name, 'die', 'r', 3)[0], 'fatal', 'opening or dying', case=case)
    elif op == 'proto':
      r = p.ok('proto', 'text', name, -1, 'abc')
      if r != [b'none'] and b'0' not in r[:4]:
        fail('a message that could not be written is reported as written', case=case)
      eq(p.ok('protoread', name), [b'0'], 'a message that is not there', case=case)
    return True
  cases = [[o, t] for o in ('binary', 'text') for t in ('missing', 'nowhere', 'inplain', 'folder')]
  cases += [['lines', t] for t in ('missing', 'nowhere', 'inplain', 'folder')]
  cases += [[o, t] for o in ('write', 'big', 'fwrite') for t in ('nowhere', 'folder', 'inplain', 'full')]
  cases += [['temp', t] for t in ('nowhere', 'folder', 'inplain', 'full')]
  cases += [['fread', t] for t in ('missing', 'nowhere', 'inplain')]
  cases += [['proto', t] for t in ('nowhere', 'inplain')]
  ctx.enum('faults', cases, fn)


def run_runfiles(ctx, p):
  def fn(case):
    eq(p.ok('runfile', case), [b'path', ('/the/run/' + case).encode()], 'runfile path')
    return True
  ctx.check('runfile', st.text(st.sampled_from('abc/._'), min_size=1, max_size=9).filter(
      lambda x: x[0] != '/'), fn, ctx.n(100, 500))
