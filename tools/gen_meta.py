#!/usr/bin/env python3
"""Generate /verif/properties.jsonl and /verif/MANIFEST.json from props_data.py and the registry of implemented checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props_data import PROPS
implemented = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'rrsa', 'checks')) if f[0] in 'c' and f[1:-3].isdigit()} \
    if os.path.isdir(os.path.join(ROOT, 'rrsa', 'checks')) else set()
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fx:
    for p in PROPS:
        fx.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=p['state'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')
checks, na = [], []
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    elif p['id'] in implemented:
        checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level='other', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='No check built yet in this tree (work in progress); not claimed.'))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="Static analysis only: python3 standard library, no build of /repo, no execution of its code."),
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
