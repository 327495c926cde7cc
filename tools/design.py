#!/usr/bin/env python3
"""Regenerate the per-property and seeded-bug sections of DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
out = ['## Properties\n']
for f in sorted(glob.glob(V + '/props/*/property.json')):
    d = json.load(open(f)); c = f.replace('property.json', 'prop.json')
    out.append(f"### {d['id']} – {d['title']}\n\n{d['statement']}\n")
    if os.path.exists(c):
        c = json.load(open(c))
        fns = []
        for sp in c.get('specs', []):
            for m in re.finditer(r'/\*@fn (\S+) :: ([^\n]+)\n', open(os.path.join(os.path.dirname(f), sp)).read()):
                fns.append(f'`{m.group(2).strip()}`')
        out.append(f"*Decided by:* {c['level_note']}\n\n*Functions extracted:* {', '.join(fns) or 'none'}\n\n*Bounded driver:* {c.get('driver')}\n\n*Why tests cannot:* {d['why_tests_cant']}\n")
        if c.get('design'): out.append(c['design'] + '\n')
sd = ['## Seeded bugs\n', '| seeded | property | needs | caught by |', '|---|---|---|---|']
res = {}
if os.path.exists(V + '/props/seeded_results.json'): res = json.load(open(V + '/props/seeded_results.json'))
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    sd.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
def put(s, tag, body):
    a, b = f'<!-- {tag} -->', f'<!-- /{tag} -->'
    blk = a + '\n' + body + '\n' + b
    if f'@@{tag}@@' in s: return s.replace(f'@@{tag}@@', blk)
    return s[:s.index(a)] + blk + s[s.index(b) + len(b):]
s = put(s, 'PROPS', '\n'.join(out)); s = put(s, 'SEEDS', '\n'.join(sd))
open(p, 'w').write(s)
