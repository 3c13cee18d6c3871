#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(here, 'tools/level_notes.py')).read())
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
  i = json.loads(line)['id']
  if os.path.exists(os.path.join(here, 'props', i.lower() + '.py')):
    cmd = '/opt/venv/bin/python run.py %s --tier %s'
    tech, note = NOTES.get(i, DEFAULT)
    checks.append({'property': i, 'quick_cmd': cmd % (i, 'quick'),
                   'thorough_cmd': cmd % (i, 'thorough'), 'technique': tech,
                   'level': 'exploration', 'level_note': note})
  else:
    na.append({'property': i, 'reason': NA.get(i, 'its generated-input check is not built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup_check.py', 'checks': checks,
     'not_applicable': na,
     'notes': 'Every check: run.py ID builds the closure it needs from /repo incrementally, '
              'runs the units of props/<id>.py in parallel processes, writes evidence/ID.json. '
              'VERIF_SEED selects the cases. run.py ID --replay FILE reruns one shrunk case.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
