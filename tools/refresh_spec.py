#!/opt/venv/bin/python
"""Writes spec/tables.json: the character tables as published at the pinned commit.

Run by hand when a table is changed on purpose (after reviewing the diff of the
JSON); never by a check. The reference models read the tables from here, so that
a table corrupted in /repo disagrees with them.
"""
import glob, json, os, sys
OUT = '/opt/nisaba-build/out/nisaba/scripts/'
tables = {}
for path in sorted(glob.glob(OUT + '*/data/**/*.tsv', recursive=True)):
  rows = []
  for line in open(path, encoding='utf8'):
    line = line.rstrip('\n')
    if line.startswith('#') or not line:
      continue
    rows.append(line.split('\t'))
  tables[os.path.relpath(path, OUT)] = rows
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + '/spec/tables.json', 'w', encoding='utf8') as f:
  f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v, ensure_ascii=False)) for k, v in sorted(tables.items())) + '\n}\n')
print(len(tables), sum(map(len, tables.values())))
