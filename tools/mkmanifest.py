#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from what checks/plans.py claims."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
from plans import PLANS, NOTES, TECH
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
out = dict(version=1, setup_cmd='python3 checks/run.py --setup', checks=[], not_applicable=[],
           notes='No hooks: the public API exposes the state the specification speaks of.')
for i in ids:
    if i in PLANS:
        out['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 checks/run.py ' + i,
            technique=TECH, level='model_checking', level_note=NOTES[i], evidence_file='evidence/%s.json' % i))
    else:
        out['not_applicable'].append(dict(property=i, reason=NA.get(i, 'The specification of this part is not written yet; nothing is claimed.')))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
