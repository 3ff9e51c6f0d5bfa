#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
import props
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
na = []
for p in props.PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                       technique=p['technique'], level='other', level_note=p['note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes=props.NOTES)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

# tables of DESIGN.md
def fill(text, mark, lines):
    a, b = '<!-- %s -->' % mark, '<!-- /%s -->' % mark
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + '\n'.join(lines) + '\n' + text[j:]


d = open(os.path.join(V, 'DESIGN.md')).read()
k = json.load(open(os.path.join(V, 'known-findings.json')))
import re
fx = []
for s in k['fixed']:
    s = s if isinstance(s, str) else str(s)
    x = re.match(r'fixed: property=(\S+) (\S+) (.*)', s)
    fx.append('| %s | %s | %s |' % x.groups())
d = fill(d, 'fixes', ['| property | commit | what failed |', '|---|---|---|'] + fx)
cf = os.path.join(V, 'tools', 'catch.json')
cj = json.load(open(cf)) if os.path.exists(cf) else {}
rows = []
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    me = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    by = cj.get(s, [])
    rows.append((me['property'], s, '| %s | %s | %s; needs %s | %s |' % (s, me['property'], me['what_it_breaks'], me['needs'], ', '.join(by) if s in cj else 'not recorded')))
d = fill(d, 'seeds', ['%d changes.' % len(rows), '', '| change | breaks | what | reported by |', '|---|---|---|---|'] + [r[2] for r in sorted(rows)])
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
