#!/usr/bin/env python3-vt
import json, os, jsonschema
R='/root/.vp/'
ids=set()
s=json.load(open(R+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.add(d['id'])
    for f in d['anchors']['files']+[m['where'] for m in d['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f): print('missing',d['id'],f)
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open(R+'MANIFEST.schema.json')))
    got={c['property'] for c in m['checks']}|{n['property'] for n in m.get('not_applicable',[])}
    bad=[n['property'] for n in m.get('not_applicable',[]) if 'no check' in n['reason']]; assert not bad, bad
    print('unclaimed:',sorted(ids-got),'unknown:',sorted(got-ids))
e=json.load(open(R+'EVIDENCE.schema.json'))
for f in sorted(os.listdir('/verif/evidence')):
    if f.endswith('.json'): jsonschema.validate(json.load(open('/verif/evidence/'+f)),e)
print('ok',len(ids))
