"""Compiles C++ code of /repo with the sandbox's own libraries and talks to it.

The C++ part of the repository cannot be built as upstream builds it (its Abseil
is newer than the installed one and some libraries are absent), so cc/shim holds
stand-ins for the few missing headers (logging and checks that throw, runfiles,
integer types, an order-1 n-gram counter), and two system headers are copied with
a conversion added. The sources themselves are compiled from the working tree.
"""
import concurrent.futures as cf
import glob
import os
import queue
import subprocess
import threading

from lib import pbt

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIBS = (['-Wl,--as-needed'] + sorted(
    f for f in glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so')
    if 'test_util' not in f) + ['-lfstfar', '-lfst', '-lprotobuf', '-ldl', '-lpthread'])


class CompileError(Exception):
  pass


def _gen(scratch):
  """Copies of system headers, patched: returns the include directory."""
  d = os.path.join(scratch, 'gen')
  p = os.path.join(d, 'absl/strings/string_view.h')
  if os.path.exists(p):
    return d
  os.makedirs(os.path.dirname(p))
  os.makedirs(os.path.join(d, 'fst'))
  t = open('/usr/include/absl/strings/string_view.h').read()
  mark = '  // string_view::begin()'
  if t.count(mark) != 1 or '#include <string>\n' not in t:
    raise CompileError('unexpected absl/strings/string_view.h')
  t = t.replace('#include <string>\n', '#include <string>\n#include <string_view>\n', 1)
  t = t.replace(mark, '''  operator std::string_view() const noexcept { return std::string_view(ptr_, length_); }
  string_view(std::string_view s) noexcept : string_view(s.data(), s.size()) {}

''' + mark)
  open(p, 'w').write(t)
  t = open('/usr/include/fst/string.h').read()
  t = t.replace('bool operator()(const std::string &str,', 'bool operator()(std::string_view str,')
  t = t.replace('ConvertStringToLabels(str,', 'ConvertStringToLabels(std::string(str),')
  t = t.replace('#include <string>\n', '#include <string>\n#include <string_view>\n', 1)
  mark = 'class StringPrinter {\n public:\n  using Label = typename Arc::Label;\n'
  if t.count(mark) != 1:
    raise CompileError('unexpected fst/string.h')
  t = t.replace(mark, mark + '''
  bool operator()(const Fst<Arc> &fst, std::string *str, typename Arc::Weight *weight) const {
    if (!(*this)(fst, str)) return false;
    *weight = Arc::Weight::One();
    auto s = fst.Start();
    for (; s != kNoStateId && fst.NumArcs(s) == 1;) {
      ArcIterator<Fst<Arc>> it(fst, s);
      *weight = Times(*weight, it.Value().weight);
      s = it.Value().nextstate;
    }
    if (s != kNoStateId) *weight = Times(*weight, fst.Final(s));
    return true;
  }
''')
  open(os.path.join(d, 'fst/string.h'), 'w').write(t)
  return d


def build(scratch, name, sources, san='address,undefined', cflags=(), opt='-O1', tools=()):
  """Compiles /repo's sources and cc/<name>.cc; returns the binary's path.

  tools: sources of main programs, each linked with the same sources into a
  binary beside it, named like its source.
  """
  d = os.path.join(scratch, 'cc-' + name)
  os.makedirs(d, exist_ok=True)
  flags = ['-std=c++17', opt, '-g', '-w', '-fno-omit-frame-pointer']
  if san:
    flags += ['-fsanitize=' + san, '-fno-sanitize-recover=all']
  flags += list(cflags) + [
      '-I' + REPO, '-I' + _gen(scratch), '-include', 'absl/types/span.h',
      '-I' + os.path.join(HERE, 'cc/shim'), '-I' + os.path.join(HERE, 'cc'),
      '-I' + d, '-I/usr/include/utf8cpp']
  files = [s if s.startswith('/') else os.path.join(REPO, s) for s in sources]
  files.append(os.path.join(HERE, 'cc', name + '.cc'))
  n = len(files)
  files += [os.path.join(REPO, t) for t in tools]

  def one(i_f):
    i, f = i_f
    obj = os.path.join(d, '%d.o' % i)
    r = subprocess.run(['g++'] + flags + ['-c', f, '-o', obj],
                       capture_output=True, text=True)
    if r.returncode:
      raise CompileError('%s:\n%s' % (f, r.stderr[:4000]))
    return obj

  with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    objs = list(ex.map(one, enumerate(files)))
  out = os.path.join(d, name)
  todo = [(out, objs[:n])] + [
      (os.path.join(d, os.path.basename(t)[:-len('.cc')]), objs[:n - 1] + [o])
      for t, o in zip(tools, objs[n:])]

  def link(job):
    r = subprocess.run(['g++'] + flags + job[1] + ['-o', job[0]] + LIBS,
                       capture_output=True, text=True)
    if r.returncode:
      raise CompileError(r.stderr[-4000:])

  with cf.ThreadPoolExecutor(4) as ex:
    list(ex.map(link, todo))
  for o in objs:
    os.unlink(o)
  return out


def protoc(scratch, name, protos):
  """Generates C++ for protos next to where build(name) will look."""
  d = os.path.join(scratch, 'cc-' + name)
  os.makedirs(d, exist_ok=True)
  r = subprocess.run(['protoc', '-I' + REPO, '--cpp_out=' + d] + protos,
                     capture_output=True, text=True, cwd=REPO)
  if r.returncode:
    raise CompileError(r.stderr[-3000:])


ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1',
    'TSAN_OPTIONS': 'halt_on_error=1',
}


class Proc:
  """The harness process, restarted after a crash."""

  def __init__(self, binary, timeout=60, env=None):
    self.binary, self.timeout = binary, timeout
    self.env = dict(os.environ, **ENV, **(env or {}))
    self.env.pop('LD_LIBRARY_PATH', None)
    self.p = None
    self.prefix = []

  def _start(self):
    self.err = open(os.path.join(os.environ.get('TMPDIR', '/tmp'),
                                 'stderr-%d' % id(self)), 'w+b')
    self.p = subprocess.Popen(self.prefix + [self.binary], stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=self.err, env=self.env)
    self.q = queue.Queue()

    def pump(p, q):
      for line in p.stdout:
        q.put(line)
      q.put(None)
    threading.Thread(target=pump, args=(self.p, self.q), daemon=True).start()

  def call(self, *fields):
    """(status, [bytes, ...]); a crash or a hang is a violation."""
    if self.p is None or self.p.poll() is not None:
      self._start()
    data = [f.encode() if isinstance(f, str) else
            str(f).encode() if isinstance(f, (int, float)) else bytes(f) for f in fields]
    try:
      self.p.stdin.write(b' '.join(f.hex().encode() or b'-' for f in data) + b'\n')
      self.p.stdin.flush()
      line = self.q.get(timeout=self.timeout)
    except BrokenPipeError:
      line = None
    except queue.Empty:
      self.p.kill()
      self.p.wait()
      self.p = None
      raise pbt.Violation('no answer within %d s' % self.timeout) from None
    if line is None:
      self.p.wait()
      rc = self.p.returncode
      self.err.seek(0)
      text = self.err.read().decode('utf8', 'replace')
      self.p = None
      at = max(text.find('ERROR: '), text.find('runtime error'), text.find('WARNING: ThreadSan'), 0)
      raise pbt.Violation('the process ended with %s: %s' % (
          rc, ' '.join(text[max(0, at - 100):at + 900].split())))
    parts = line.decode().split()
    return parts[0], [b'' if x == '-' else bytes.fromhex(x) for x in parts[1:]]

  def ok(self, *fields):
    status, r = self.call(*fields)
    if status != 'ok':
      pbt.fail('%s: %s' % (status, r))
    return r

  def close(self):
    if self.p is not None and self.p.poll() is None:
      self.p.kill()
      self.p.wait()


def tsan_proc(p):
  """p if it starts; the same without address randomization otherwise."""
  try:
    p.ok('ping')
    return p
  except pbt.Violation as e:
    if 'memory mapping' not in str(e) and 'FATAL: ThreadSanitizer' not in str(e):
      raise
  p.prefix = ['setarch', '-R']
  p.ok('ping')
  return p
