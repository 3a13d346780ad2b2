#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('TLA+ specification (spec/) checked with TLC: trace validation of the library\'s recorded behaviour '
        'against the specification, on generated programs and on scenarios enumerated by TLC, with model '
        'checking of the specification itself')
NOTES = {}
checks = []
with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    for line in f:
        p = json.loads(line)
        i = p['id']
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i}',
            'thorough_cmd': f'./check {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH,
            'level': 'model_checking',
            'level_note': NOTES.get(i, 'Every observed outcome is compared with the specification; the inputs are bounded '
                                       'samples (class shapes, values, histories), the specification is explored '
                                       'exhaustively within small constants.'),
        })
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': []}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
