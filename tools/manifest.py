#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and lib/bkv/checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from bkv import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': [], 'not_applicable': [],
     'notes': 'bin/check ID compiles the harness with the current /repo/src; TLC explores the bounded behaviours of the TLA+ specification in spec/ and checks '
              'the declarative property on them, the behaviours are replayed on the real code, and scenarios recorded from the real code are validated by TLC '
              'against the specification; no hooks in /repo are needed. bin/check --replay FILE repeats a reported violation.'}
for p in props:
    i = p['id']
    if i not in checks.CHECKS:
        m['not_applicable'].append({'property': i, 'reason': checks.NOT_YET.get(i, 'the check of this property is not finished yet')})
        continue
    c = checks.CHECKS[i]
    m['checks'].append({'property': i, 'quick_cmd': 'VERIF_TIER=quick bin/check %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % i,
                        'technique': c.get('technique', checks.TECHNIQUE), 'level': c.get('level', 'model_checking'),
                        'level_note': c.get('note', checks.NOTE)})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
