#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, LEVEL_NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'], 'level': p['level'],
            'level_note': p.get('note', '') + (' ' if p.get('note') else '') + LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'hooks': {'guard': 'none: no hooks were added to /repo; the harness module is appended to a copy of /repo/src in /verif/build', 'enable': 'n/a', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
