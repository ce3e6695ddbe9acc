#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')
        assert len(p['title']) <= 80, p['id']
na = {i for i, _ in NA}
m = {
    'version': 1,
    'setup_cmd': './run.sh build',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"./run.sh check {p['id']}",
        'thorough_cmd': f"env VERIF_TIER=thorough ./run.sh check {p['id']}",
        'technique': p['tech'],
        'level': p.get('level', 'exploration'),
        'level_note': p['note'],
    } for p in P if p['id'] not in na],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
    'notes': 'Checks compile the code straight from /repo (see DESIGN.md). Exit 0: held; 1: violation; 2 or 3: the check itself could not run or finish.',
}
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

# Every property must be in exactly one crate's list
import glob
have = sorted(x for f in glob.glob('*/properties') for x in open(f).read().split())
assert have == sorted(p['id'] for p in P), (have, [p['id'] for p in P])
