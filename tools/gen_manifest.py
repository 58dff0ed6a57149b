#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed as soon as mc/jy/cNN.py exists."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
T = ('explicit-state model checking: bounded exhaustive enumeration of %s, executed on the real code '
     '(stateless exploration) and compared, execution by execution, with an independent reference model')
from importlib.machinery import SourceFileLoader
tech = SourceFileLoader('t', os.path.join(here, 'techniques.py')).load_module().WHAT
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'mc', 'jy', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 mc/run.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 mc/run.py ' + i,
                       'technique': T % tech[i][0], 'level': 'model_checking', 'level_note': tech[i][1]})
    else:
        na.append({'property': i, 'reason': 'no check is built for it yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 mc/run.py --setup', 'checks': checks, 'not_applicable': na},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
