#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from props/<ID>/property.json, prop.json and props/not_applicable.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for p in sorted(glob.glob(V + '/props/*/property.json')):
    d = json.load(open(p)); pid = d['id']
    props.append(d)
    cfgp = os.path.join(os.path.dirname(p), 'prop.json')
    if os.path.exists(cfgp):
        c = json.load(open(cfgp))
        checks.append(dict(property=pid, quick_cmd=f'./check {pid}', thorough_cmd=f'VERIF_TIER=thorough ./check {pid}',
            technique=c.get('technique', 'contract-based deductive verification (Verus) of functions extracted from /repo on every run'),
            level=c.get('level', 'proof'), level_note=c['level_note']))
    else:
        na.append(dict(property=pid, reason='not built yet'))
for d in json.load(open(V + '/props/not_applicable.json')):
    r = d.pop('reason'); props.append(d); na.append(dict(property=d['id'], reason=r))
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(d, ensure_ascii=False) + '\n' for d in props))
for d in props:
    assert len(d['title']) <= 80, d['id']
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na)
hk = V + '/props/hooks.json'
if os.path.exists(hk): m['hooks'] = json.load(open(hk))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in props: jsonschema.validate(d, s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: print('no jsonschema')
print(len(props), 'properties;', len(checks), 'checks;', len(na), 'not applicable')
