#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing; both files are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

TECH = 'deterministic simulation with fault injection: '
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
na = {k for k, _ in NOT_APPLICABLE}
man = {'version': 1,
       'setup_cmd': 'python3 sim/build.py',
       'hooks': {'guard': 'none', 'enable': 'No hook exists in /repo. The seams used are the compiler and the linker: the check compiles /repo\'s own .pyx/.cc '
                 'sources with -fsanitize=thread and links them with sim/detomp (a deterministic OpenMP / tsan / allocator runtime) in a scratch directory; the Python '
                 'code is imported from /repo as it is.', 'source_commits': []},
       'checks': [{'property': p['id'], 'quick_cmd': './check.py ' + p['id'], 'thorough_cmd': './check.py ' + p['id'] + ' --tier thorough',
                   'technique': TECH + p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS if p['id'] not in na],
       'not_applicable': [{'property': k, 'reason': r} for k, r in NOT_APPLICABLE],
       'notes': 'One driver (check.py) and one simulator (sim/). See DESIGN.md. ./check.py <property> --replay <file> repeats a recorded failure. '
                '--tier thorough (or VERIF_TIER=thorough) runs the long tier of the same check.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
