#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md (defects repaired, planted bugs) from known_findings.json and seeded/."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'DESIGN.md')
s = open(p, encoding='utf-8').read()
f = '\n'.join('* %s' % k['text'].replace('\n', ' ') for k in json.load(open(os.path.join(H, 'known_findings.json'), encoding='utf-8')))
rows = ['| bug | property | caught by | needs |', '|---|---|---|---|']
c = {}
q = os.path.join(H, 'tools', 'catches.json')
if os.path.exists(q):
    c = json.load(open(q))
for m in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    b = os.path.basename(os.path.dirname(m)); d = json.load(open(m, encoding='utf-8'))
    rows.append('| %s | %s | %s | %s |' % (b, d['property'], ' '.join(c.get(b, [d['property']])), d['needs'].replace('\n', ' ').replace('|', '/')))
def fill(tag, text):
    global s
    s = re.sub(r'<!-- %s -->.*?<!-- end -->' % tag, lambda _: '<!-- %s -->\n%s\n<!-- end -->' % (tag, text), s, flags=re.S)
fill('findings', f)
fill('seeded', '\n'.join(rows))
open(p, 'w', encoding='utf-8').write(s)
