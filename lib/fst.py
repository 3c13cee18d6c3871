"""Access to the built grammars from inside a runfiles tree."""
import functools
import os
import random
import warnings

import pynini

from lib.pbt import Violation

ROOT = os.path.join(os.environ.get('TREE', ''), 'com_google_nisaba')
WS = 'com_google_nisaba'


class _Far:
  """A FAR read rule by rule, each rule when it is first asked for."""

  def __init__(self, path):
    self.full = os.path.join(ROOT, path)
    self.rules = {}
    with pynini.Far(self.full, 'r') as f:
      self.names = []
      while not f.done():
        self.names.append(f.get_key())
        f.next()

  def __contains__(self, rule):
    return rule in self.names

  def __iter__(self):
    return iter(self.names)

  def __getitem__(self, rule):
    if rule not in self.rules:
      if rule not in self.names:
        raise Violation('no rule %s in %s' % (rule, self.full))
      with pynini.Far(self.full, 'r') as f:
        self.rules[rule] = f[rule]
    return self.rules[rule]


@functools.lru_cache(maxsize=None)
def far(path):
  """Rules of a FAR, e.g. far('nisaba/scripts/brahmic/nfc.far')['DEVA']."""
  return _Far(path)


def accep(text, utf8=False):
  """A literal acceptor: no character has a special meaning."""
  return pynini.accep(pynini.escape(text), token_type='utf8' if utf8 else 'byte')


def apply(text, fst, utf8=False):
  """One best output, or None if the input is not in the domain."""
  tt = 'utf8' if utf8 else 'byte'
  lat = pynini.compose(accep(text, utf8), fst)
  if lat.start() == pynini.NO_STATE_ID:
    return None
  return pynini.shortestpath(lat).string(token_type=tt)


def outputs(text, fst, utf8=False, limit=50):
  """All outputs (up to limit) with their weights, ignoring duplicate paths."""
  tt = 'utf8' if utf8 else 'byte'
  lat = pynini.compose(accep(text, utf8), fst)
  if lat.start() == pynini.NO_STATE_ID:
    return {}
  lat = pynini.shortestpath(lat.project('output').rmepsilon(), nshortest=limit,
                            unique=True)
  res = {}
  for _, o, w in lat.paths(output_token_type=tt, input_token_type=tt).items():
    res[o] = min(res.get(o, 1e30), float(w))
  return res


def best_outputs(text, fst, utf8=False, limit=50):
  """All outputs that tie for the best weight."""
  o = outputs(text, fst, utf8, limit)
  if not o:
    return set()
  m = min(o.values())
  return {k for k, w in o.items() if w <= m + 1e-4}


def accepts(text, fst, utf8=False):
  """Whether the text is in the domain."""
  return pynini.compose(accep(text, utf8), fst).start() != pynini.NO_STATE_ID
