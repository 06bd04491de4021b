#!/bin/bash
cd /verif && python3 tools/kf.py && /opt/venv/bin/python tools/gen.py && python3-vt - <<'X'
import json,jsonschema,os,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    r=json.loads(l); jsonschema.validate(r,s); ids.append(r['id'])
    for f in r['anchors']['files']:
        assert os.path.exists('/repo/'+f),(r['id'],f)
    n=r['statement'].count('. ')+1
    if n>3: print(r['id'],n)
assert len(set(ids))==len(ids)
m=json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(ids),'properties',len(m['checks']),'checks')
X
