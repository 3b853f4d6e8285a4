#!/usr/bin/env python3
"""Writes MANIFEST.json, bounds.json and properties.jsonl from props.py and meta.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props, meta
claimed = [p['id'] for p in props.P if os.path.exists(f"{V}/harness/src/{p['id'].lower()}.rs") and p['id'] in meta.BOUNDS]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
for p in props.P:
    i = p['id']
    if i in claimed:
        b = meta.BOUNDS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 run.py check {i} --tier quick', thorough_cmd=f'python3 run.py check {i} --tier thorough',
            technique="symbolic execution of rustc's LLVM IR of the real code, path conditions and assertions decided by z3, counterexamples replayed natively",
            level='model_checking', level_note='every input within the bounds: ' + b['bounds'] + ' Outside: ' + b['outside']))
    else:
        m['not_applicable'].append(dict(property=i, reason=meta.NA.get(i, 'no harness written yet')))
m['notes'] = 'The solver decides each assertion for all values within the stated bounds; nothing is claimed beyond them. See DESIGN.md.'
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
json.dump({i: meta.BOUNDS[i] for i in claimed}, open(f'{V}/bounds.json', 'w'), indent=1)
