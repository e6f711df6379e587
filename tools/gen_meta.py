#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import PROPS
from checks import CHECKS, NOT_APPLICABLE, HOOKS, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
ids = [p['id'] for p in PROPS]
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[], notes=NOTES)
if HOOKS: m['hooks'] = HOOKS
for id in ids:
    if id in CHECKS:
        level, tech, note = CHECKS[id]
        m['checks'].append(dict(property=id, quick_cmd=f'./check.sh {id} quick', thorough_cmd=f'./check.sh {id} thorough',
            evidence_file=f'evidence/{id}.json', technique=tech, level=level, level_note=note))
    else:
        m['not_applicable'].append(dict(property=id, reason=NOT_APPLICABLE.get(id, 'no check built yet')))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False); open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
