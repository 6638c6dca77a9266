#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NOTES
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': "python3 -m py_compile check.py checks.py && java -version && go version",
    'hooks': {'guard': 'none', 'enable': 'no hooks: the driver uses the public API only', 'source_commits': []},
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'python3 check.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'TLA+ specification (%s) checked with TLC; TLC-generated scenarios run on the real code; recorded traces judged by TLC against the specification (%s)' % (
            ', '.join(CHECKS[p]['design'] + CHECKS[p].get('gen', [])), CHECKS[p]['trace']),
        'level': 'model_checking',
        'level_note': NOTES[p],
    } for p in props if p in CHECKS],
    'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in CHECKS],
    'notes': 'TLA+ with TLC. See DESIGN.md.',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
