#!/opt/veriftools/pyvenv/bin/python3
import json, jsonschema, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ld = lambda p: json.load(open(p))
jsonschema.validate(ld(V + '/MANIFEST.json'), ld('/root/.vp/MANIFEST.schema.json'))
s = ld('/root/.vp/PROPERTIES.schema.json')
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); jsonschema.validate(p, s)
    for f in p['anchors']['files']: assert os.path.exists('/repo/' + f), (p['id'], f)
    n = p['statement'].count('. ') + 1; assert n <= 3, (p['id'], n)
s = ld('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob(V + '/evidence/*.json'): jsonschema.validate(ld(f), s)
print('ok')
