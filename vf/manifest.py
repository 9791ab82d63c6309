#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vf'))
from spec import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 vf/run.py --setup', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in PROPS:
        cmd = 'python3 vf/run.py ' + i
        m['checks'].append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': PROPS[i]['technique'], 'level': 'exploration', 'level_note': PROPS[i]['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
m['notes'] = ('No hooks: everything is observed from outside, through instrumented user types, sanitizers and the public '
              'interface. The changes to /repo are fixes only (see known_findings.txt).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
