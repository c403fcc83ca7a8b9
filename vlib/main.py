"""Command line of the checks: runs the shards, merges them, writes evidence, reports violations."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from vlib import boot, engine

VERIF = boot.VERIF


def read_findings(pid):
    """Lines of KNOWN_FINDINGS.txt: 'finding: property=ID case=FILE what fails' (and 'fixed: ...', which suppress nothing)."""
    out = []
    p = VERIF / 'KNOWN_FINDINGS.txt'
    for line in p.read_text().splitlines() if p.exists() else ():
        if line.startswith('finding:'):
            words = line.split(None, 3)
            kv = dict(w.split('=', 1) for w in words[1:3])
            if kv.get('property') == pid:
                out.append((VERIF / kv['case'], words[3]))
    return out


def write_replay(pid, subname, case, message, tb, seed, tier):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    path = d / f'{pid}-{subname}.json'
    path.write_text(json.dumps(dict(property=pid, sub=subname, case=case, message=message, traceback=tb,
                                    seed=seed, tier=tier), indent=1))
    return path


def single(args, path_list):
    """Worker mode used for the corpus, known findings and replays: run stored cases, one result each."""
    boot.setup_paths()
    mod = engine.load_prop(args.property)
    res = []
    for path in path_list:
        data = json.loads(Path(path).read_text())
        subname = data['sub']
        if subname not in mod.SUBS:
            raise SystemExit(f'{path}: no sub-check {subname}')
        sub = mod.SUBS[subname]
        try:
            rec = engine.run_case(sub, data['case'])
            res.append(dict(path=str(path), sub=subname, ok=True, labels=rec.labels, nontrivial=rec.nontrivial_flag,
                            hash=engine.case_hash(sub, data['case'], rec)))
        except Exception as exc:
            import traceback
            res.append(dict(path=str(path), sub=subname, ok=False, message=engine.describe(exc),
                            traceback=traceback.format_exc(), case=data['case']))
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or 8)   # the cases depend on it, not on the machine
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--worker', nargs=4, help=argparse.SUPPRESS)      # shard nshards out stop
    ap.add_argument('--cases', nargs='+', help=argparse.SUPPRESS)     # out file...
    args = ap.parse_args(argv)
    pid = args.property.upper()
    args.property = pid
    budget = args.budget or (150 if args.tier == 'quick' else 3000)
    if args.worker:
        shard, n, out, stop = args.worker
        engine.worker_main(pid, args.tier, args.seed, int(shard), int(n), out, stop, budget)
        return 0
    if args.cases:
        Path(args.cases[0]).write_text(json.dumps(single(args, args.cases[1:])))
        return 0
    return parent(args, pid, budget)


def parent(args, pid, budget):
    t0 = time.monotonic()
    root = Path(tempfile.mkdtemp(prefix='verif-'))
    try:
        env = dict(os.environ)
        env.update(boot.make_offline(root / 'off'))
        env['TMPDIR'] = str(root / 'tmp')
        (root / 'tmp').mkdir()
        env.pop('PYTHONPATH', None)
        if args.sub:
            env['VERIF_SUB'] = args.sub
        if args.scale:
            env['VERIF_SCALE'] = str(args.scale)
        env['VERIF_TIER'] = args.tier
        env['VERIF_SEED'] = str(args.seed)
        base = [boot.VENV_PYTHON, '-B', '-m', 'vlib.main', pid, args.tier, '--seed', str(args.seed), '--budget', str(budget)]

        def run_cases(files):
            out = root / 'cases.json'
            p = subprocess.run(base + ['--cases', str(out)] + [str(f) for f in files], cwd=VERIF, env=env,
                               capture_output=True, text=True)
            if p.returncode != 0:
                sys.stderr.write(p.stdout + p.stderr)
                raise SystemExit(f'check {pid}: stored cases could not be run (exit {p.returncode})')
            return json.loads(out.read_text())

        if args.replay:
            r = run_cases([Path(args.replay).resolve()])[0]
            if r['ok']:
                print(f'replay {args.replay}: property {pid} holds on this case')
                return 0
            print(r['traceback'])
            print(f'VIOLATION property={pid} replay={args.replay}')
            return 1

        stop = root / 'stop'
        procs = []
        for i in range(args.jobs):
            out = root / f'w{i}.json'
            log = open(root / f'w{i}.log', 'w')
            procs.append((subprocess.Popen(base + ['--worker', str(i), str(args.jobs), str(out), str(stop)], cwd=VERIF,
                                           env=env, stdout=log, stderr=subprocess.STDOUT), out, log))
        findings = read_findings(pid)
        corpus = sorted((VERIF / 'corpus' / pid).glob('*.json'))
        known_paths = {str(f) for f, _ in findings}
        stored = []
        if (corpus or findings) and not args.sub:
            stored = run_cases([f for f, _ in findings] + [c for c in corpus if str(c) not in known_paths])
        failures, merged, errors = [], {}, []
        for p, out, log in procs:
            rc = p.wait()
            log.close()
            if rc != 0:
                errors.append(Path(log.name).read_text()[-6000:])
                continue
            for r in json.loads(out.read_text()):
                m = merged.setdefault(r['name'], dict(evaluations=0, nontrivial=set(), labels={}, samples=[], wall_s=0.0,
                                                      requested=0, cut=False, rule=r['rule']))
                m['mod_rule'], m['assumptions'] = r['mod_rule'], r['assumptions']
                m['evaluations'] += r['evaluations']
                m['nontrivial'] |= set(r['nontrivial'])
                m['wall_s'] += r['wall_s']
                m['requested'] += r['requested']
                m['cut'] = m['cut'] or r['cut']
                for k, v in r['labels'].items():
                    m['labels'][k] = m['labels'].get(k, 0) + v
                if len(m['samples']) < 3:
                    m['samples'] += r['samples'][:3 - len(m['samples'])]
                if r['failure']:
                    failures.append((r['name'], r['failure']))
        known_lines = []
        texts = {str(f): t for f, t in findings}
        for r in stored:
            if r['path'] in texts:
                if r['ok']:
                    print(f'note: the known finding in {r["path"]} did not reproduce')
                else:
                    known_lines.append(f'KNOWN-FINDING: property={pid} {texts[r["path"]]}')
                continue
            m = merged.setdefault('stored:' + r['sub'], dict(evaluations=0, nontrivial=set(), labels={}, samples=[],
                                                             wall_s=0.0, requested=0, cut=False))
            m['evaluations'] += 1
            if r['ok']:
                if r['nontrivial']:
                    m['nontrivial'].add(r['hash'])
            else:
                failures.append((r['sub'], r))
        if errors and not failures:
            sys.stderr.write('\n'.join(errors) + '\n')
            print(f'check {pid}: {len(errors)} worker(s) failed: error of the check, no verdict')
            return 2
        evidence(args, pid, merged, failures, time.monotonic() - t0, budget)
        for line in known_lines:
            print(line)
        ev = sum(m['evaluations'] for m in merged.values())
        nt = sum(len(m['nontrivial']) for m in merged.values())
        for name, m in sorted(merged.items()):
            lab = ' '.join(f'{k}={v}' for k, v in sorted(m['labels'].items()))
            print(f'  {name}: {m["evaluations"]} cases, {len(m["nontrivial"])} distinct non-trivial, '
                  f'{m["wall_s"]:.1f} cpu-s{" (cut by the time budget)" if m["cut"] else ""} {lab}')
        print(f'{pid} {args.tier} seed={args.seed}: {ev} cases, {nt} non-trivial, {time.monotonic() - t0:.1f} s')
        if failures:
            # the smallest failing case of the first failing sub-check
            failures.sort(key=lambda f: len(json.dumps(f[1]['case'])))
            name, f = failures[0]
            path = write_replay(pid, name, f['case'], f['message'], f.get('traceback', ''), args.seed, args.tier)
            print(f'sub-check {name}: {f["message"]}')
            print('minimal case: ' + json.dumps(f['case'])[:2000])
            print(f'VIOLATION property={pid} replay={path}')
            return 1
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def evidence(args, pid, merged, failures, wall, budget):
    d = VERIF / 'evidence'
    d.mkdir(exist_ok=True)
    samples = []
    for name, m in sorted(merged.items()):
        for s in m['samples'][:2]:
            txt = json.dumps(s)
            samples.append(dict(sub_check=name, case=s if len(txt) < 4000 else txt[:4000] + '...'))
    rule = next((m['mod_rule'] for m in merged.values() if m.get('mod_rule')), 'see DESIGN.md')
    assumptions = next((m['assumptions'] for m in merged.values() if m.get('assumptions')), [])
    data = dict(
        property=pid, tier=args.tier, seed=args.seed, level='exploration',
        coverage=dict(
            evaluations=sum(m['evaluations'] for m in merged.values()),
            distinct_nontrivial=sum(len(m['nontrivial']) for m in merged.values()),
            rule=rule,
            samples=samples,
            sub_checks={n: dict(evaluations=m['evaluations'], requested=m['requested'],
                                distinct_nontrivial=len(m['nontrivial']),
                                labels=m['labels'], cpu_s=round(m['wall_s'], 2), cut_by_time_budget=m['cut'],
                                rule=m.get('rule', '')) for n, m in sorted(merged.items())},
        ),
        assumptions=assumptions,
        wall_s=round(wall, 2), violations=len(failures))
    (d / f'{pid}.json').write_text(json.dumps(data, indent=1))


if __name__ == '__main__':
    sys.exit(main())
