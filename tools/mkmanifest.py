#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (LEVEL, TECHNIQUE, NOTE)."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if not os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    m = importlib.import_module(p['id'].lower())
    cmd = 'python3 run.py --property ' + p['id']
    checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd, technique=m.TECHNIQUE,
                       level=m.LEVEL, level_note=m.NOTE))
json.dump(dict(version=1, setup_cmd='python3 run.py --setup',
               checks=checks, not_applicable=na,
               notes='No hooks are needed in /repo: every monitor watches the public API, object lifetimes, the '
                     'allocator and the sanitizer runtimes.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
