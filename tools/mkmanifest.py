#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that harness/check.py has."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import check
import notes
checks = []
na = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if prop in check.CHECKS:
        tech, note = notes.NOTES[prop]
        checks.append({
            'property': prop,
            'quick_cmd': 'python3 harness/check.py ' + prop,
            'thorough_cmd': 'env VERIF_TIER=thorough python3 harness/check.py ' + prop,
            'technique': tech, 'level': check.LEVELS.get(prop, 'model_checking'), 'level_note': note})
    else:
        na.append({'property': prop, 'reason': 'no check yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specification in spec/, checked by TLC and bound to the code in /repo by replaying and judging runs; see DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
