"""Writes MANIFEST.json from the registered closures."""
import json
from vc.closures import CLOSURE
LEVEL_NOTE = json.load(open('levels.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLOSURE:
        n = LEVEL_NOTE.get(i, LEVEL_NOTE['*'])
        checks.append(dict(property=i, quick_cmd='python3-vt run.py %s --tier quick' % i, thorough_cmd='python3-vt run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=n['technique'], level='proof', level_note=n['note']))
    else:
        na.append(dict(property=i, reason=LEVEL_NOTE['na'].get(i, 'not yet brought under contract')))
json.dump(dict(version=1, setup_cmd='python3-vt setup.py', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
