#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, notes.json, known_findings.json, design_notes.json and seeded/*/meta.json (documentation only: no check uses it)."""
import glob
import json
import os

os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open('properties.jsonl')]
notes = json.load(open('notes.json'))
known = json.load(open('known_findings.json'))
more = json.load(open('design_notes.json'))
out = [open('design_head.md').read().rstrip(), '', '## Properties, one by one', '']
for p in props:
    i = p['id']
    d = more['props'].get(i, {})
    out += [f'### {i} {p["title"]}', '', f'*Specified.* {p["statement"]}', '', f'*Decided by.* {notes[i]["technique"]}.', '', f'*Enumerated.* {p["quantifier"]["text"]} {notes[i]["note"]}', '']
    if d.get('oracle'):
        out += [f'*Oracle.* {d["oracle"]}', '']
    out += [f'*Beyond the tests.* {p["why_tests_cant"]}', '']
    if d.get('limits'):
        out += [f'*Limits.* {d["limits"]}', '']
    if d.get('cost'):
        out += [f'*Cost (quick).* {d["cost"]}', '']
    fx = [x.split(' ', 3)[2:] for x in known['fixed'] if f'property={i} ' in x]
    if fx:
        out += ['*Defects it found, repaired in /repo.*'] + [f'- {h} {t}' for h, t in fx] + ['']
out += [open('design_tail.md').read().rstrip(), '', '## Planted bugs', '',
        'Written from the property texts and the code; each passes the existing tests and fails its own demonstration. "caught" names the check that reports it.', '',
        '| id | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    s = f.split('/')[1]
    out.append(f'| {s} | {m["property"]} | {m["needs"]} | {more["seeded"].get(s, m["property"])} |'.replace('\n', ' '))
out += ['', '## Known findings', '']
for x in known['findings']:
    out.append('- ' + (x if isinstance(x, str) else json.dumps(x)))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
