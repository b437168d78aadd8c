#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bin/setup',
     'hooks': {'guard': 'none',
               'enable': 'no hooks in /repo: the seams are put in when the objects are linked '
                         '(renamed libc symbols, thread-access instrumentation)',
               'source_commits': []},
     'checks': [], 'not_applicable': [],
     'notes': 'Every check explores a bounded space exhaustively; DESIGN.md gives the bounds. '
              'Unguarded fix: commits in /repo are listed in known-findings.txt.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'bin/check %s' % i,
                            'thorough_cmd': 'bin/check %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i,
                            'technique': c['technique'], 'level': c['level'],
                            'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i,
                                    'reason': NOT_APPLICABLE.get(i, 'not built yet')})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
