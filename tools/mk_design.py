"""Writes DESIGN.md from the properties, the modules and the texts below."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)

HEAD = open('tools/design_head.md', encoding='utf8').read()
TAIL = open('tools/design_tail.md', encoding='utf8').read()
NOTES = {}
for block in open('tools/design_notes.md', encoding='utf8').read().split('\n## ')[1:]:
  name, text = block.split('\n', 1)
  NOTES[name.strip()] = text.strip()


def module(pid):
  tree = ast.parse(open('props/%s.py' % pid.lower(), encoding='utf8').read())
  rule = ''
  for n in tree.body:
    if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULE':
      rule = ast.literal_eval(n.value)
  return rule


caught = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
  m = json.load(open(f, encoding='utf8'))
  caught.setdefault(m['property'], []).append((f.split('/')[1], m))

out = [HEAD.strip(), '', '## The properties', '']
for line in open('properties.jsonl', encoding='utf8'):
  p = json.loads(line)
  out += ['### %s %s' % (p['id'], p['title']), '',
          '*Specified:* ' + p['statement'], '',
          '*Generated and judged:* ' + module(p['id']), '']
  if NOTES.get(p['id']):
    out += [NOTES[p['id']], '']
  out += ['*Why tests cannot:* ' + p['why_tests_cant'], '']
out += [TAIL.strip(), '', '## Planted bugs', '',
        'Each was confirmed to build, to pass the stable tests, and to fail its demonstration. "Caught by" is the',
        'check that reports it at the quick tier.', '',
        '| id | property | what it breaks | what it needs | caught by |', '|---|---|---|---|---|']
for pid, items in sorted(caught.items()):
  for name, m in items:
    out.append('| %s | %s | %s | %s | %s |' % (
        name, pid, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', pid)))
with open('DESIGN.md', 'w', encoding='utf8') as f:
  f.write('\n'.join(out) + '\n')
