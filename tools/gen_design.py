"""The per-property tables of DESIGN.md, from the harnesses and the evidence"""
import glob
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(ROOT, 'DESIGN.md')
props = {}
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    d = json.loads(line)
    props[d['id']] = d
out = []
for f in sorted(glob.glob(os.path.join(ROOT, 'evidence', 'C[0-9][0-9].json'))):
    e = json.load(open(f))
    c = e['coverage']
    p = e['property']
    per = {}
    for h in c['per_harness']:
        s = h.get('stats') or {}
        t = per.setdefault(h['name'], [0] * 5)
        for k, n in enumerate(('paths', 'obligations', 'queries')):
            t[k] += s.get(n, 0)
        t[3] += s.get('solver_s', 0)
        t[4] += 1
    out.append(f"### {p} {props[p]['title']}\n")
    for h in c['harnesses']:
        n = h['name']
        t = per.get(n, [0] * 5)
        out.append(f"- **{n}** ({t[4]} case{'s' if t[4] != 1 else ''}, "
                   f"{t[0]} paths, {t[1]} obligations, {t[2]} queries, "
                   f"solver {t[3]:.1f} s). Encoded: "
                   f"{', '.join(h['functions'])}. Bounds: {h['bounds']}.")
    out.append(f"\nQuick run: {e['wall_s']:.0f} s.\n")
s = open(P).read()
a, b = '<!-- table -->\n', '<!-- end of table -->\n'
s = re.sub(re.escape(a) + '.*?' + re.escape(b),
           lambda m: a + '\n'.join(out) + b, s, flags=re.S)
open(P, 'w').write(s)
