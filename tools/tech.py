#!/usr/bin/env python3
"""tools/tech.py PID technique note: (re)writes an entry of techniques.json, then regenerates everything"""
import json, subprocess, sys
p = 'tools/techniques.json'
d = json.load(open(p))
d[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
for t in ('mkprops', 'mkmanifest', 'mkfixed'):
    subprocess.run(['python3', f'tools/{t}.py'], check=True)
