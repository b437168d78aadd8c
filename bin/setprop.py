#!/usr/bin/env python3
"""setprop.py ID field text: edit one field of properties.jsonl."""
import json
import sys
path = '/verif/properties.jsonl'
rows = [json.loads(line) for line in open(path)]
for r in rows:
    if r['id'] == sys.argv[1]:
        assert sys.argv[2] in r or sys.argv[2] == 'statement'
        r[sys.argv[2]] = sys.argv[3]
with open(path, 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
