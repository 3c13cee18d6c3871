"""C02: UTF-8 delimiters, whitespace sets and code-point helpers."""
from lib import cc
from lib.pbt import eq, fail, st, subseed
import random

TARGETS = []
RULE = (
    'The C++ sources are compiled from the working tree with address and undefined-behaviour '
    'sanitizers and driven through buffers of exactly the right size. Cases: every code point '
    '(enumerated) for the whitespace sets, encoding and decoding; generated texts over whitespace '
    'look-alikes, 1- to 4-byte characters and arbitrary ones; generated byte strings built from '
    'truncated, overlong, surrogate and random sequences. Oracle: Python\'s own UTF-8 codec and an '
    'independent splitter over Unicode White_Space. Non-trivial: the text holds a delimiter and '
    'another character, or the bytes are not valid UTF-8.')

BREAKING = sorted([9, 10, 11, 12, 13, 0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029,
                   0x202F, 0x205F, 0x3000] + list(range(0x2000, 0x200B)))
OTHER = [0x180E, 0x200B, 0x200C, 0x200D, 0x2060, 0xFEFF]
NEAR = ([c + d for c in BREAKING + OTHER for d in (-1, 1)] +
        [0x41, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000,
         0xfffd, 0xfeff, 0x90a, 0x1f600])


def prepare(scratch, env, tier):
  env['CC_BIN'] = cc.build(scratch, 'text', [
      'nisaba/port/utf8_delimiters.cc', 'nisaba/port/unicode_properties.cc',
      'nisaba/port/utf8_util.cc'])


def subs(tier):
  return ['sets', 'split', 'find', 'codes', 'bytes', 'points']


def char():
  return st.one_of(st.sampled_from(BREAKING + OTHER), st.sampled_from(NEAR).filter(
      lambda c: not 0xd800 <= c < 0xe000), st.sampled_from(range(0x41, 0x7b)),
      st.integers(1, 0x10ffff).filter(lambda c: not 0xd800 <= c < 0xe000))


def text(max_size=24):
  return st.lists(char(), max_size=max_size).map(lambda v: ''.join(map(chr, v)))


PIECES = [b'\xc0\x80', b'\xc1\xbf', b'\xe0\x80\x80', b'\xf0\x80\x80\x80', b'\xed\xa0\x80',
          b'\xed\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe',
          b'\x80', b'\xbf', b'\xc2', b'\xe2\x80', b'\xf0\x9f\x98', b'\xe3\x80', b'\xef\xbf\xbd',
          b'\xef\xbf\xbe', b'\xef\xbf\xbf', b'\xe2\x80\xa8', b'\xc2\xa0', b' ', b'a', b'\0']


def raw():
  return st.lists(st.one_of(st.sampled_from(PIECES), st.binary(min_size=1, max_size=4),
                            char().map(lambda c: chr(c).encode())),
                  max_size=8).map(lambda v: b''.join(v).hex())


def decoded(b):
  try:
    return b.decode('utf8')
  except UnicodeDecodeError:
    return None


def split_on(t, points):
  out, cur = [], ''
  for c in t:
    if ord(c) in points:
      out.append(cur)
      cur = ''
    else:
      cur += c
  return out + [cur]


def run(ctx):
  import os
  p = cc.Proc(os.environ['CC_BIN'])
  try:
    globals()['run_' + ctx.sub](ctx, p)
  finally:
    p.close()


def run_sets(ctx, p):
  def fn(which):
    got = sorted(int(x) for x in p.ok('set', which))
    want = {'breaking': BREAKING, 'nonbreaking': OTHER, 'all': sorted(BREAKING + OTHER)}[which]
    eq(got, want, 'characters in the set', which=which)
    return True
  ctx.enum('set', ['breaking', 'nonbreaking', 'all'], fn)

  def point(c):
    ch = chr(c)
    got = [x.decode() for x in p.ok('split', 'a' + ch + 'b')]
    eq(got, ['a', 'b'] if c in BREAKING else ['a' + ch + 'b'], 'split at whitespace', char='%04X' % c)
    return c in BREAKING
  every = [c for c in range(1, 0x110000) if not 0xd800 <= c < 0xe000 and (c < 0x3100 or c in NEAR or ctx.thorough and c % 7 == 0)]
  ctx.enum('point', every, point)


def run_split(ctx, p):
  def fn(t):
    got = [x.decode() for x in p.ok('split', t)]
    eq(got, split_on(t, BREAKING), 'pieces between breaking whitespace', text=t)
    ne = [x.decode() for x in p.ok('splitne', t)]
    eq(ne, [x for x in split_on(t, BREAKING) if x], 'non-empty pieces', text=t)
    al = [x.decode() for x in p.ok('splitall', t)]
    eq(al, split_on(t, BREAKING + OTHER), 'pieces between any whitespace', text=t)
    return len(got) > 1 and any(got)
  ctx.check('split', text(), fn, ctx.n(2500, 40000))


def run_find(ctx, p):
  def fn(case):
    t, k, points = case
    k = min(k, len(t) + 2)
    pos = len(t[:k].encode()) + max(0, k - len(t))
    at, n = map(int, p.ok('find', t, pos, ','.join(map(str, points)) or 'space'
                          if points is not None else 'space'))
    want = BREAKING if points is None or not points else points
    i = next((i for i in range(min(k, len(t)), len(t)) if ord(t[i]) in want), None)
    if i is None:
      eq((at, n), (len(t.encode()), 0), 'no delimiter left', case=case)
    else:
      eq((at, n), (len(t[:i].encode()), len(t[i].encode())), 'first delimiter', case=case)
    return i is not None
  ctx.check('find', st.tuples(text(), st.integers(0, 30), st.one_of(
      st.none(), st.lists(char(), min_size=1, max_size=4))).map(list), fn, ctx.n(2500, 40000))


def run_codes(ctx, p):
  def fn(t):
    eq([x.decode() for x in p.ok('chars', t)], list(t), 'characters', text=t)
    eq([int(x) for x in p.ok('codes', t)], [ord(c) for c in t], 'code points', text=t)
    n, c = map(int, p.ok('decode', t))
    if t:
      eq((n, c), (len(t[0].encode()), ord(t[0])), 'first code point', text=t)
    else:
      eq((n, c), (1, 0), 'decoding nothing')
    good, c = p.ok('single', t)
    eq(good == b'1', len(t) == 1, 'is one code point', text=t)
    if len(t) == 1:
      eq(int(c), ord(t), 'that code point', text=t)
    return len(t) > 1
  ctx.check('codes', text(6), fn, ctx.n(2500, 40000))


def run_bytes(ctx, p):
  def fn(case):
    b = bytes.fromhex(case)
    t = decoded(b)
    chars = [x.decode('latin1').encode('latin1') for x in p.ok('chars', b)]
    codes = [int(x) for x in p.ok('codes', b)]
    n, c = map(int, p.ok('decode', b))
    good, _ = p.ok('single', b)
    if t is None:
      eq(chars, [], 'an invalid text is not split', bytes=case)
      eq(codes, [], 'an invalid text is not decoded', bytes=case)
      eq((n, c), (1, 0xfffd), 'decoding an invalid text', bytes=case)
      eq(good, b'0', 'an invalid text is no code point', bytes=case)
      for cmd in ('split', 'splitall'):  # Unspecified, but not out of bounds.
        status, r = p.call(cmd, b)
        if status == 'ok' and cmd == 'split' and not set(b''.join(r)) <= set(b):
          fail('pieces hold foreign bytes', bytes=case)
      return True
    eq([x.decode() for x in chars], list(t), 'characters', bytes=case)
    eq(codes, [ord(x) for x in t], 'code points', bytes=case)
    eq(good == b'1', len(t) == 1, 'is one code point', bytes=case)
    return False
  ctx.check('bytes', raw(), fn, ctx.n(3000, 50000))


def run_points(ctx, p):
  rng = random.Random(subseed(ctx.seed, 'c02', 'points'))

  def fn(c):
    want = chr(c).encode()
    eq(p.ok('encode', c), [want], 'encoding', point='%04X' % c)
    eq([int(x) for x in p.ok('decode', want)], [len(want), c], 'decoding', point='%04X' % c)
    good, v = p.ok('single', want)
    eq((good, int(v)), (b'1', c), 'one code point', point='%04X' % c)
    return c > 0x7f
  every = [c for c in range(1, 0x110000) if not 0xd800 <= c < 0xe000]
  some = sorted(set(rng.sample(every, 4000)) | set(range(1, 0x900)) |
                {c for c in NEAR if c in set(every)})
  ctx.enum('points', every if ctx.thorough else some, fn)
