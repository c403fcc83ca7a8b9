#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py (PROPERTY, NEEDS, BREAKS, EDITS, DEMO) and tries it.

  mkseed.py ID...          write the folder(s)
  mkseed.py --try ID...    also: stable tests, the demo on the clean and on the changed tree, and the check
Everything happens in /repo's working tree, which is restored afterwards.
"""
import json, os, pathlib, shutil, subprocess, sys, runpy, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
R = pathlib.Path(os.environ.get('SEED_REPO', '/repo'))     # (a copy, to only write the folders)
HEAD = r'''#!/bin/bash
# exit 0: the property held in this demonstration; 1: it did not. Run with cwd /repo.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OFF=$(mktemp -d)
trap 'rm -rf "$OFF"' EXIT
mkdir -p "$OFF/home" "$OFF/config" "$OFF/work"
export PYTHONDONTWRITEBYTECODE=1 GIT_TERMINAL_PROMPT=0 HOME=$OFF/home
export XDG_CACHE_HOME=$OFF/cache XDG_CONFIG_HOME=$OFF/config
export MCCODEANTLR_MCCODE_POOCH__REGISTRY=$OFF/empty.git MCCODEANTLR_MCCODE_POOCH__TAG=v0.0.0
git init -q --bare -b main "$OFF/empty.git"
tree=$(git -C "$OFF/empty.git" mktree </dev/null)
commit=$(git -C "$OFF/empty.git" -c user.name=o -c user.email=o@localhost commit-tree "$tree" -m empty)
git -C "$OFF/empty.git" tag v0.0.0 "$commit"
for n in mcstas mcxtrace libc; do
    mkdir -p "$XDG_CACHE_HOME/mccode_antlr/$n/v0.0.0"
    : > "$XDG_CACHE_HOME/mccode_antlr/$n/v0.0.0/$n-registry.txt"
done
export PYTHONPATH=$PWD/src
cd "$OFF/work"
/opt/venv/bin/python "$HERE/demo.py"
'''
def git(*a, **k): return subprocess.run(['git', '-C', str(R), *a], check=True, capture_output=True, text=True, **k).stdout
def main():
    args = sys.argv[1:]
    trying = '--try' in args
    quickonly = '--check' in args
    ids = [a for a in args if not a.startswith('--')] or sorted(p.stem for p in (V/'tools/seeds').glob('*.py'))
    if git('status', '--porcelain'): raise SystemExit('/repo is not clean')
    for i in ids:
        s = runpy.run_path(str(V/'tools/seeds'/f'{i}.py'))
        d = V/'seeded'/i; d.mkdir(parents=True, exist_ok=True)
        try:
            for f, old, new in s['EDITS']:
                p = R/f; t = p.read_text()
                assert t.count(old) == 1, f'{i}: {t.count(old)} matches of {old!r} in {f}'
                p.write_text(t.replace(old, new))
            (d/'patch.diff').write_text(git('diff'))
        finally:
            git('checkout', '--', '.')
        if s.get('RUNTIME'):
            shutil.copytree(V/'vlib/runtime', d/'runtime', dirs_exist_ok=True)
            shutil.copy(V/'tools/simhelper.py', d/'sim.py')
        (d/'demo.py').write_text(s['DEMO'].lstrip()); (d/'demo.sh').write_text(HEAD); (d/'demo.sh').chmod(0o755)
        (d/'meta.json').write_text(json.dumps(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), indent=1)+'\n')
        if not trying and not quickonly: print(i, 'written'); continue
        res = {}
        res['demo_clean'] = subprocess.run([str(d/'demo.sh')], cwd=R, capture_output=True).returncode
        try:
            git('apply', str(d/'patch.diff'))
            if trying:
                r = subprocess.run([str(d/'demo.sh')], cwd=R, capture_output=True, text=True)
                res['demo_patched'] = r.returncode; res['demo_says'] = (r.stdout+r.stderr).strip().splitlines()[-1:]
                subprocess.run('bash /opt/vp/build.sh', shell=True, check=True)
                with tempfile.TemporaryDirectory() as t:
                    subprocess.run(['bash','/opt/vp/test.sh',t+'/o.json'],capture_output=True)
                    passed = set(json.load(open(t+'/o.json'))['passed'])
                res['stable_missing'] = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in passed]
            r = subprocess.run(['./check', s['PROPERTY'], 'quick'], cwd=V, capture_output=True, text=True)
            res['check'] = r.returncode
            res['says'] = [l[:200] for l in r.stdout.splitlines() if 'VIOLATION' in l][:3]
        finally:
            git('checkout', '--', '.')
            c = V/'tools/seeds/caught.json'; table = json.loads(c.read_text()) if c.exists() else {}
            table[i] = f"{s['PROPERTY']} ({', '.join(sorted({x.split('replay=')[1].split('/')[-1].split('-')[1] for x in res['says'] if 'replay=' in x}))})" if res['check'] == 1 else 'missed'
            c.write_text(json.dumps(table, indent=1, sort_keys=True)+'\n')
        print(i, json.dumps(res, indent=1))
main()
