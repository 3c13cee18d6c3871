"""C01: the thread pool."""
import os

from lib import cc
from lib.pbt import eq, fail, st

TARGETS = []
RULE = (
    'The header is compiled from the working tree twice: with the installed Abseil under an address '
    'sanitizer, and with a stand-in mutex that perturbs the schedule (random yields and short sleeps '
    'around every lock) under a thread sanitizer. Cases: generated histories of scheduling, starting '
    'the workers, releasing running tasks and destroying, compared after every step with the model '
    '"the first (threads + finished) tasks have started"; generated crowds of producers with tasks '
    'that schedule further tasks. Non-trivial: more tasks than threads, or more than one producer.')

SAN = {'abseil': 'address,undefined', 'tsan': 'thread'}


def prepare(scratch, env, tier):
  env['CC_abseil'] = cc.build(scratch, 'pool', [], opt='-O1')
  os.rename(scratch + '/cc-pool', scratch + '/cc-pool-abseil')
  env['CC_abseil'] = env['CC_abseil'].replace('cc-pool', 'cc-pool-abseil')
  env['CC_tsan'] = cc.build(scratch, 'pool', [], san='thread', cflags=[
      '-include', os.path.join(cc.HERE, 'cc/sync.h')])


def subs(tier):
  return [a + '_' + b for a in ('abseil', 'tsan') for b in ('gated', 'crowd', 'order')]


def ints(b):
  return [int(x) for x in b.decode().split(',') if x]


def run(ctx):
  ctx.schedules = True
  kind, what = ctx.sub.split('_')
  p = cc.Proc(os.environ['CC_' + kind], timeout=30)
  if kind == 'tsan':
    p = cc.tsan_proc(p)
  try:
    globals()['run_' + what](ctx, p)
  finally:
    p.close()


def run_gated(ctx, p):
  op = st.tuples(st.sampled_from(['schedule', 'schedule', 'schedule', 'workers', 'open']),
                 st.integers(0, 9)).map(list)

  def fn(case):
    threads, ops = case
    args, want = [], []
    n = 0          # scheduled
    workers = False
    opened = set()
    started = 0

    def advance():
      # Started tasks are a prefix; those not opened hold a worker each.
      nonlocal started
      if not workers:
        return
      while started < n and sum(1 for i in range(started) if i not in opened) < threads:
        started += 1
    for o, x in ops:
      if o == 'workers':
        if workers:
          continue
        workers = True
        args += ['workers', 0]
      elif o == 'schedule':
        args += ['schedule', 0]
        n += 1
      else:
        held = [i for i in range(started) if i not in opened]
        if not held:
          continue
        i = held[x % len(held)]
        opened.add(i)
        args += ['open', i]
      advance()
      args += ['started', started]
      want.append(list(range(started)))
    if not workers:
      args += ['workers', 0]
    args += ['destroy', 0]
    r = p.ok('gated', threads, 300, *args)
    got = [ints(x) for x in r[:-3]]
    for i, (g, w) in enumerate(zip(got, want)):
      eq(sorted(g), w, 'tasks that have started after step %d' % i, case=case)
      if threads == 1:
        eq(g, w, 'order of starting', case=case)
    eq(r[-3], b'kept', 'destruction waits for all tasks', case=case)
    eq(ints(r[-2]), [1] * n, 'each task ran once', case=case)
    eq(int(r[-1]), n, 'each task finished', case=case)
    return n > threads
  ctx.check('gated', st.tuples(st.integers(1, 5), st.lists(op, max_size=14)).map(list), fn,
            ctx.n(250, 4000))


def run_crowd(ctx, p):
  def fn(case):
    threads, producers, tasks, busy, children, early = case
    r = p.ok('crowd', threads, producers, tasks, busy, children, early)
    total = producers * tasks * (1 + children)
    eq(ints(r[2]), [1] * total, 'each task ran once', case=case)
    eq(int(r[0]), total, 'all were done when the pool was gone', case=case)
    if int(r[1]) > threads:
      fail('more tasks at a time than threads', most=int(r[1]), case=case)
    for o in r[3:]:
      eq(sorted(ints(o)), list(range(tasks)), 'tasks of one producer', case=case)
      if threads == 1:
        eq(ints(o), list(range(tasks)), 'tasks of one producer start in order', case=case)
    return producers > 1 or total > threads
  ctx.check('crowd', st.tuples(
      st.integers(1, 8), st.integers(1, 6), st.integers(0, 25), st.sampled_from([0, 0, 5, 60]),
      st.integers(0, 2), st.integers(0, 1)).map(list), fn, ctx.n(250, 5000))


def run_order(ctx, p):
  def fn(case):
    tasks, busy, early = case
    r = p.ok('crowd', 1, 1, tasks, busy, 0, early)
    eq(ints(r[3]), list(range(tasks)), 'one worker takes the tasks in order', case=case)
    eq(int(r[1]), min(tasks, 1), 'one at a time', case=case)
    return tasks > 1
  ctx.check('order', st.tuples(st.integers(0, 60), st.sampled_from([0, 3]), st.integers(0, 1)).map(list), fn,
            ctx.n(150, 2000))
