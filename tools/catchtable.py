#!/usr/bin/env python3
"""Development helper: writes the table of section 5 of DESIGN.md out of seeded/*/meta.json and
the logs of runs against the planted bugs (/tmp/catch.ID.log)."""
import json, os, re
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = base + '/DESIGN.md'
s = open(p).read()
old = dict(re.findall(r'^\| (c\d\d-[a-z0-9-]+) \| .* \| ([^|]*) \|$', s, re.M))
rows = ['| change | what it needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(base + '/seeded')):
    m = json.load(open(f'{base}/seeded/{d}/meta.json'))
    by = old.get(d, '?')
    try:
        r = re.findall(r'^  harness (\w+)', open(f'/tmp/catch.{d}.log', errors='replace').read(), re.M)
        by = '`%s`' % r[0] if r else 'not caught'
    except FileNotFoundError:
        pass
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/').strip(), by))
t = '<!-- catch table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
if 'CATCHTABLE' in s:
    s = s.replace('CATCHTABLE', t)
else:
    s = re.sub(r'<!-- catch table -->.*?<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
