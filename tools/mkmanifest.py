#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a checks/cXX.py."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(H, 'tools', 'notes.json'), encoding='utf-8'))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    n = NOTES.get(p)
    if os.path.exists(os.path.join(H, 'checks', p.lower() + '.py')) and n:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note']})
    else:
        na.append({'property': p, 'reason': 'specification and check still being written in this session'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ (TLC). No hooks in /repo: everything is observed through the public API; the fix commits are unguarded repairs of genuine defects, listed in known_findings.json.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
print(len(checks), 'checks', len(na), 'open')
