#!/usr/bin/env python3
"""addknown.py fixed C12 'text' : appends an entry for the last /repo commit"""
import json, subprocess, sys
kind, prop, text = sys.argv[1:4]
h = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
p = '/verif/known_findings.json'
k = json.load(open(p, encoding='utf-8'))
k.append({'property': prop, 'kind': kind, 'text': 'fixed: property=%s %s %s' % (prop, h, text)})
open(p, 'w', encoding='utf-8').write('[\n' + ',\n'.join(json.dumps(x, ensure_ascii=False) for x in k) + '\n]\n')
