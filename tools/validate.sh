#!/bin/bash
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    try: jsonschema.validate(json.loads(l),s)
    except Exception as e: print(json.loads(l)['id'],str(e)[:300])
if os.path.exists('MANIFEST.json'):
    jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for f in glob.glob('evidence/*.json'):
    try: jsonschema.validate(json.load(open(f)),es)
    except Exception as e: print(f,str(e)[:300])
print('validated')
P
