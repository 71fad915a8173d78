#!/usr/bin/env python3
"""Rewrites the two generated lists of DESIGN.md: repaired defects and planted changes."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
fx = []
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fx.append('* **%s** `%s` %s' % m.groups())
    m = re.match(r'finding: property=(\S+) (.*)', l)
    if m: fx.append('* **%s** (recorded, not repaired) %s' % m.groups())
res = {}
try:
    res = json.load(open(V + '/tools/matrix.json'))
except FileNotFoundError:
    pass
rows = ['| change | property | caught by | needs |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], ', '.join(res.get(s, ['?'])) or 'missed', str(m['needs'])[:140].replace('|', '/').replace('\n', ' ')))
def put(tag, text, d):
    return re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, text, tag), d, flags=re.S)
d = put('fixes', '\n'.join(fx), d)
d = put('matrix', '\n'.join(rows), d)
open(V + '/DESIGN.md', 'w').write(d)
