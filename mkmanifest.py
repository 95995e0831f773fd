#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist (mc/checks/cNN.py) and their notes."""
import importlib.util, json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(HERE, 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'mc/checks', pid.lower() + '.py')) and pid in NOTES:
        n = NOTES[pid]
        checks.append(dict(property=pid, quick_cmd=f'./run {pid} --tier quick', thorough_cmd=f'./run {pid} --tier thorough',
                           technique=n['technique'], level=n.get('level', 'model_checking'), level_note=n['note']))
    else:
        na.append(dict(property=pid, reason=NOTES.get(pid, {}).get('na', 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='PROJECTQ_VERIF', enable='no hooks are needed: the checks drive the public API', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='Every check enumerates its bounded space completely on the real code; see DESIGN.md.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
