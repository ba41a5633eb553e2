#!/usr/bin/env python3
"""Development helper: reads harness specs from tools/checks.txt and writes checks.json.

Lines:   # property            "C01"
         name | quick s | thorough s | flags | bounds
flags: T = thorough only, R = race replay, P = needs -trimpath binary, S = schedule replay, X = native runs one at a time, n=N samples
"""
import json, os, re
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, cur = {}, None
for l in open(os.path.join(base, 'tools', 'checks.txt')):
    l = l.rstrip('\n')
    if not l.strip() or l.startswith('//'):
        continue
    if re.fullmatch(r'C\d\d', l.strip()):
        cur = out.setdefault(l.strip(), {"harnesses": []})
        continue
    if l.startswith('assume:'):
        cur.setdefault('assumptions', []).append(l[7:].strip())
        continue
    name, q, t, fl, b = [x.strip() for x in l.split('|', 4)]
    h = {"name": name, "bounds": b, "quick": int(q), "thorough": int(t)}
    for f in [x for w in fl.split() for x in ([w] if w.startswith('n=') else w)]:
        if f == 'T': h["tier"] = "thorough"
        elif f == 'R': h["race"] = True
        elif f == 'P': h["trim"] = True
        elif f == 'S': h["sched"] = True
        elif f == 'X': h["excl"] = True
        elif f.startswith('n='): h["samples"] = int(f[2:])
    cur["harnesses"].append(h)
with open(os.path.join(base, 'checks.json'), 'w') as f:
    f.write('{\n')
    for i, (p, c) in enumerate(sorted(out.items())):
        f.write(' %s: {"harnesses": [\n' % json.dumps(p))
        f.write(',\n'.join('  ' + json.dumps(h) for h in c["harnesses"]))
        f.write('\n ]')
        if c.get('assumptions'):
            f.write(', "assumptions": ' + json.dumps(c['assumptions']))
        f.write('}' + (',' if i < len(out) - 1 else '') + '\n')
    f.write('}\n')
