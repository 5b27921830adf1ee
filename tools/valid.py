"""Validate properties.jsonl, MANIFEST.json and the evidence files.
Run with /opt/veriftools/pyvenv/bin/python"""
import glob
import json
import os
import jsonschema

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
load = lambda p: json.load(open(p))
s = load('/root/.vp/PROPERTIES.schema.json')
ps = [json.loads(x) for x in open(V + '/properties.jsonl')]
for p in ps:
    jsonschema.validate(p, s)
    assert len(p['title']) <= 80, p['id']
jsonschema.validate(load(V + '/MANIFEST.json'),
                    load('/root/.vp/MANIFEST.schema.json'))
e = load('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob(V + '/evidence/*.json'):
    jsonschema.validate(load(f), e)
print('valid', len(ps))
