"""The search engine shared by every check: generators, counting, shrinking, replay files.

A property module (vlib/props/<id>.py) registers sub-checks:

    @sub('name', strategy, quick=400, thorough=20000)
    def name(case, rec): ...           # raise (AssertionError or anything else) when the property is broken

`case` is what the Hypothesis strategy produced after a JSON round trip, so a failing case can be
stored in a replay file and run again without Hypothesis.  `rec` collects what the case contained.
"""
import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path


class Violation(AssertionError):
    pass


class HarnessError(BaseException):
    """Something the harness needs is missing: an error of the check, never a violation."""


class StopRun(BaseException):
    pass


class Rec:
    def __init__(self):
        self.labels = []
        self.nontrivial_flag = False
        self.key = None
        self.evals = 1

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond=True, key=None):
        self.nontrivial_flag = self.nontrivial_flag or bool(cond)
        if key is not None:
            self.key = key


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards = shards


def registry():
    subs = {}

    def sub(name, strategy, quick=200, thorough=10000, rule='', shards=None):
        def deco(fn):
            subs[name] = Sub(name, strategy, fn, quick, thorough, rule or (fn.__doc__ or '').strip(), shards)
            return fn
        return deco
    return subs, sub


def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def eq(a, b, what=''):
    if a != b:
        raise Violation(f'{what}: got {a!r}, expected {b!r}')


def normal(case):
    return json.loads(json.dumps(case))


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if 'mccode_antlr' in fr.filename or 'vlib' in fr.filename:
            where = f'{fr.filename}:{fr.lineno}'
            break
    return f'{type(exc).__name__}: {exc} [{where}]'


def run_case(sub, case):
    rec = Rec()
    sub.fn(normal(case), rec)
    return rec


def case_hash(sub, case, rec):
    key = rec.key if rec.key is not None else case
    return hashlib.blake2b(json.dumps([sub.name, key], sort_keys=True).encode(), digest_size=8).hexdigest()


def run_sub(sub, n, seed, deadline, stop_file, shrink_s):
    """Run *n* generated cases of *sub*.  Returns a JSON-able summary."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given

    out = dict(name=sub.name, evaluations=0, nontrivial=[], labels={}, samples=[], failure=None, wall_s=0.0,
               requested=n, cut=False, rule=sub.rule)
    seen = set()
    st = dict(last=None, first=None)
    t0 = time.monotonic()

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
              report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.target, Phase.shrink))
    @given(sub.strategy)
    def test(case):
        now = time.monotonic()
        if st['first'] is None:
            if now > deadline or (stop_file is not None and stop_file.exists()):
                out['cut'] = True
                raise StopRun()
        elif now - st['first'] > shrink_s:
            raise StopRun()
        case = normal(case)
        rec = Rec()
        out['evaluations'] += 1
        try:
            sub.fn(case, rec)
        except Exception as exc:
            if st['first'] is None:
                st['first'] = time.monotonic()
            st['last'] = (case, describe(exc), traceback.format_exc())
            raise
        for l in rec.labels:
            out['labels'][l] = out['labels'].get(l, 0) + 1
        if rec.nontrivial_flag:
            h = case_hash(sub, case, rec)
            if h not in seen:
                seen.add(h)
                if len(out['samples']) < 2 or (len(out['samples']) < 4 and len(seen) % 37 == 0):
                    out['samples'].append(case)

    try:
        test()
    except StopRun:
        pass
    except HarnessError:
        raise
    except Exception:
        if st['last'] is None:
            raise
    if st['last'] is not None:
        case, msg, tb = st['last']
        out['failure'] = dict(case=case, message=msg, traceback=tb)
        if stop_file is not None:
            stop_file.touch()
    out['nontrivial'] = sorted(seen)
    out['wall_s'] = time.monotonic() - t0
    return out


def load_prop(pid):
    import importlib
    return importlib.import_module(f'vlib.props.{pid.lower()}')


def worker_main(pid, tier, seed, shard, nshards, out_path, stop_path, budget):
    from vlib import boot
    boot.setup_paths()
    mod = load_prop(pid)
    t0 = time.monotonic()
    results = []
    subs = [s for s in mod.SUBS.values()]
    only = os.environ.get('VERIF_SUB')
    if only:
        subs = [s for s in subs if s.name in only.split(',')]
    total_w = sum(max(1, getattr(s, tier)) for s in subs)
    for i, s in enumerate(subs):
        n_total = getattr(s, tier)
        if not n_total:     # only stored cases
            continue
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        n_total = max(1, int(n_total * scale))
        ns = min(nshards, s.shards or nshards, n_total)
        # rotate so that the shards of small sub-checks spread over all workers
        k = (shard + i) % nshards
        if k >= ns:
            continue
        n = n_total // ns + (1 if k < n_total % ns else 0)
        if n <= 0:
            continue
        h = hashlib.blake2b(f'{seed}/{s.name}/{k}'.encode(), digest_size=6).digest()
        results.append(run_sub(s, n, int.from_bytes(h, 'big'), t0 + budget, Path(stop_path),
                               shrink_s=45 if tier == 'quick' else 180))
        Path(out_path).write_text(json.dumps(results))
        if results[-1]['failure']:
            break
    for r in results:
        r['mod_rule'] = getattr(mod, 'RULE', '')
        r['assumptions'] = getattr(mod, 'ASSUMPTIONS', [])
    Path(out_path).write_text(json.dumps(results))
