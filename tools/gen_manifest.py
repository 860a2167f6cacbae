#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif')
from units import PROPS, NA
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'Checks rebuild everything they need from /repo; build output goes to the git-ignored /verif/build. No hooks are needed in /repo.'}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
