#!/usr/bin/env python3-vt
import json, jsonschema, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],'sentences',n)
m=json.load(open(V+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c=[x['property'] for x in m['checks']]; na=[x['property'] for x in m.get('not_applicable',[])]
print('claimed',len(c),'na',len(na),'missing',set(ids)-set(c)-set(na), 'unknown',(set(c)|set(na))-set(ids), 'both', set(c)&set(na))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir(V+'/evidence')):
    jsonschema.validate(json.load(open(V+'/evidence/'+f)),e)
