#!/bin/bash
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 python3-vt -m mc.meta && python3-vt - <<'P'
import json, jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), s); n+=1
print(n,'properties ok')
P
python3 mc/mkdesign.py
