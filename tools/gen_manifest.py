#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
        technique=P.get('technique', 'symbolic execution of the LLVM IR compiled from /repo, z3 decides every branch and assertion (bounded, all paths); counterexamples replayed natively'),
        level='model_checking', level_note='Exhaustive within: ' + P['bounds'] + '.'))
na = [dict(property=i, reason=props.NA.get(i, 'check under construction')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
