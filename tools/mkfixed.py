#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of KNOWN_FINDINGS.txt from the fix commits of /repo and the map below (subject start -> property)."""
import pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
MAP = dict(l.rsplit(' = ', 1) for l in (V / 'tools/fixmap.txt').read_text().splitlines() if ' = ' in l)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
lines = [l for l in (V / 'KNOWN_FINDINGS.txt').read_text().splitlines() if not l.startswith('fixed:')]
for l in log:
    h, s = l.split(None, 1)
    if s.startswith('fix: '):
        lines.append(f'fixed: property={MAP[s[5:]]} {h} (before the repair, not so) {s[5:]}')
(V / 'KNOWN_FINDINGS.txt').write_text('\n'.join(lines) + '\n')
