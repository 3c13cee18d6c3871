"""Brings the build outputs a check needs up to date with /repo's working tree.

Uses the sandbox's own build driver (the one build.sh runs), restricted to the
closure of what the check needs. An action reruns when the content of any of its
inputs changed, so a change anywhere in /repo reaches the check.
"""
import contextlib
import fcntl
import hashlib
import importlib.util
import io
import os
import re
import shutil
import sys

NIS = '/opt/vp/nis'
_driver = None


class BuildError(Exception):
  pass


def driver():
  global _driver
  if _driver is None:
    spec = importlib.util.spec_from_file_location('nis_driver', NIS + '/driver.py')
    d = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(d)
    with open(NIS + '/farconvert.py', 'rb') as f:
      d.KEY_SALT = hashlib.sha256(f.read()).digest()
    for p in (d.OUT, d.KEYS, d.TREES):
      os.makedirs(p, exist_ok=True)
    _driver = d
  return _driver


def files_for(labels):
  """Runtime files. 'LABEL!REGEX' leaves out generated files that match."""
  d = driver()
  files = set()
  for label in labels:
    label, _, without = label.partition('!')
    if label not in d.TARGETS and label not in d.OUTPUTS and not os.path.exists(
        d.real(label)):
      raise BuildError('unknown target ' + label)
    files |= {f for f in d.runfiles(label) if not (
        without and f in d.OUTPUTS and re.search(without, f))}
  return files


def build(labels, extra_files=()):
  """Builds what the labels need at run time; returns the set of file labels."""
  d = driver()
  with open(d.BASE + '/lock', 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not d.TARGETS:
      d.load_all()
    actions = [a for a in d.make_actions() if a.what != 'import ']
    producer = {o: a for a in actions for o in a.outs}
    files = files_for(labels) | set(extra_files)
    need, todo = {}, [f for f in files]
    while todo:
      f = todo.pop()
      a = producer.get(f)
      if a is None or a.id in need:
        continue
      need[a.id] = a
      todo.extend(a.inputs)
    log = io.StringIO()
    d._hashes.clear()
    with contextlib.redirect_stdout(log):
      failed = d.run_all(list(need.values()))
    if failed:
      raise BuildError(log.getvalue()[-4000:] + '\n' + repr(d.LOAD_ERRORS)[:2000])
  return files, log.getvalue()


def make_tree(name, files, root):
  return driver().make_tree(name, files, root=root)


def env_for(tree):
  return driver().env_for(tree)
