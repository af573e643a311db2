#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/manifest_data.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif/tools')
from manifest_data import CHECKS, NA, NOTES
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': [], 'not_applicable': [], 'notes': NOTES}
for i in ids:
    if i in CHECKS:
        tech, note = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
                            'technique': tech, 'level': 'other', 'level_note': note, 'evidence_file': 'evidence/%s.json' % i})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
