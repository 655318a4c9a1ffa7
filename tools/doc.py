#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/DESIGN.md').read()
f = json.load(open(V + '/known_findings.json'))['findings']
rows = ['| property | commit | found by | defect |', '|---|---|---|---|']
for e in f:
    text = re.sub(r'^fixed: property=\S+ \S+ ', '', e['text'])
    rows.append('| %s | %s | %s | %s |' % (e['property'], e['commit'] if e['status'] == 'fixed' else 'open', e['scenario'], text.replace('|', '\\|')))
find = '\n'.join(rows)
rows = ['| bug | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), m['needs'].replace('|', '\\|').replace('\n', ' ')))
bugs = '\n'.join(rows)
def put(t, name, body):
    b = '<!-- %s -->' % name
    e = '<!-- /%s -->' % name
    if name + '_TABLE' in t:
        t = t.replace(name + '_TABLE', b + '\n' + e)
    return re.sub(re.escape(b) + r'.*?' + re.escape(e), lambda m: b + '\n' + body + '\n' + e, t, flags=re.S)
t = put(t, 'FINDINGS', find)
t = put(t, 'BUGS', bugs)
open(V + '/DESIGN.md', 'w').write(t)
