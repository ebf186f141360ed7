#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'lib', 'meta_table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p.get('observe', []),
                         hook_needed=p.get('hook')))) + '\n')
checks, na = [], []
for p in P:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note']))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='cfg(chiwawa_verif)', enable='RUSTFLAGS="--cfg chiwawa_verif"', source_commits=HOOKS),
         checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
