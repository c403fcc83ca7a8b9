#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property module that exists, the rest not_applicable."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines()]
TECH = json.loads((V / 'tools/techniques.json').read_text())
checks, na = [], []
for p in props:
    i = p['id']
    if (V / 'vlib/props' / f'{i.lower()}.py').exists() and i in TECH:
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=t['technique'], level='exploration',
                           level_note=t['note']))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Every check is ./check <ID> [quick|thorough]; ./check <ID> --replay FILE re-runs one stored case. '
               'No hooks are needed in /repo.')
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks;', len(na), 'not claimed')
