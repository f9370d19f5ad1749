#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
for p in PROPS:
    if p.get('na'):
        man['not_applicable'].append(dict(property=p['id'], reason=p['na'])); continue
    c = 'checks/%s.py' % p['id']
    if not os.path.exists(os.path.join(V, c)):
        man['not_applicable'].append(dict(property=p['id'], reason='no check built yet: ' + p.get('todo', 'planned'))); continue
    man['checks'].append(dict(property=p['id'], quick_cmd='python3 %s' % c, thorough_cmd='python3 %s --thorough' % c,
                              technique=p['technique'], level=p.get('level', 'proof'), level_note=p['note'],
                              evidence_file='evidence/%s.json' % p['id']))
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), s)
except ImportError: print('no jsonschema')
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')
