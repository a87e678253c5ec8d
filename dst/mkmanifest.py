"""Writes MANIFEST.json from dst/meta.json and dst/na.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
meta = json.load(open(os.path.join(HERE, 'meta.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
na = [n for n in json.load(open(os.path.join(HERE, 'na.json'))) if n['property'] not in meta]
na += [{'property': p, 'reason': 'its check is still being built'} for p in props
       if p not in meta and p not in [n['property'] for n in na]]
checks = []
for p in props:
  if p not in meta:
    continue
  cmd = f'/opt/venv/bin/python dst/check.py {p}'
  checks.append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --tier thorough',
                 'technique': meta[p]['technique'], 'level': 'exploration',
                 'level_note': meta[p]['note']})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python dst/selftest.py --quick', 'checks': checks,
     'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
