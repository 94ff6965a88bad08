"""MANIFEST.json from the list of implemented checks (props.py) and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from mliconf import VERIF
P = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
NA = {}
NOTE = 'TLA+ specification checked with TLC; executions of the freshly built library (three build modes) are recorded and accepted or rejected by TLC against the specification. Bounded: seeded sampling of data, enumerated or sampled geometry; reference (x86) implementation.'
checks = []
for p in P:
    i = p['id']
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
            technique='TLA+ specification (TLC) with trace validation of the real library', level='model_checking',
            level_note=props.NOTES.get(i, NOTE)))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in P if p['id'] not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
   notes='No hooks in /repo. known_findings.json lists findings and repairs. DESIGN.md explains the specification.'),
   open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
