"""R02: a scan runs the simulation once per point with that point's values."""
import os
import shutil
import subprocess
import sys
from contextlib import ExitStack
from itertools import product
from pathlib import Path
from unittest import mock

from hypothesis import strategies as st

from vlib import cgen, engine, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least two points and two parameters, or a value which is text'
ASSUMPTIONS = ['on the command line, text which reads as a number is that number, and a value with a colon is a range',
               'the simulation is a program which records its arguments; only (real) is a compiled instrument, with a stand-in for the runtime',
               'MPI is not installed: the recorder takes its place, and only the number of processes and the command it is given are checked']

TEXTS = ['text', 'two words', ' leading', 'a=b', '"quoted"', "it's", '$HOME', '*', ';ls', 'back\\slash', 'é', '', '-n', '--dir', 'a\tb', '%d', 'a,b', '#1', '(x)', 'x\ny']
COLON = ['a:b', 'C:\\dir', '::']
NUMBERS = st.one_of(st.integers(-1000, 1000), st.sampled_from([0, 1, -1, 2**31, 0.1, -0.5, 1e-30, 1.5e20, 0.30000000000000004, 1 / 3, 2.0, -0.0]))
NAMES = ['a', 'b', 'E_i', 'lambda', 'fname', 'n', 's', 'dir', 'Ncount']
RECORDER = {}


def recorder(folder, name='sim.out'):
    """A fresh copy of the program which records"""
    if 'text' not in RECORDER:
        with cgen.scratch() as d:
            exe = cgen.compile_((cgen.RUNTIME / 'recorder.c').read_text(), d)
            RECORDER['text'] = Path(exe).read_bytes()
    p = Path(folder) / name
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_bytes(RECORDER['text'])
    p.chmod(0o755)
    return p


class Place:
    """A scratch folder with the program; its runs are in the log"""

    def __init__(self, folder='d', name='sim.out', output=True, extra=()):
        self.folder, self.name, self.output, self.extra = folder, name, output, extra

    def __enter__(self):
        self.scratch = cgen.scratch()
        self.root = Path(self.scratch.__enter__())
        self.cwd = os.getcwd()
        (self.root / 'cwd').mkdir()
        os.chdir(self.root / 'cwd')
        self.log = self.root / 'log'
        self.binary = recorder(self.root / self.folder, self.name)
        os.environ['VERIF_LOG'] = str(self.log)
        if self.output:
            os.environ['VERIF_PRINT'] = '1'
        os.environ['VERIF_EXTRA'] = ':'.join(self.extra)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        os.environ.pop('VERIF_LOG', None)
        os.environ.pop('VERIF_PRINT', None)
        os.environ.pop('VERIF_EXTRA', None)
        self.scratch.__exit__(*a)

    def runs(self):
        if not self.log.exists():
            return []
        lines = self.log.read_text().split('\n')[:-1]
        return [[bytes.fromhex(w).decode('utf-8', 'surrogateescape') for w in l.split(' ')[:-1]] for l in lines]


VALUED = {'--seed': 'seed', '-s': 'seed', '--ncount': 'ncount', '-n': 'ncount', '--dir': 'dir', '-d': 'dir', '--bufsiz': 'bufsiz', '--format': 'format'}
MARKS = {'--trace': 'trace', '-t': 'trace', '--gravitation': 'gravitation', '-g': 'gravitation'}


def understood(args):
    """[options, parameters], as the simulation understands its arguments"""
    options, params, i = {}, {}, 0
    while i < len(args):
        a = args[i]
        key, eq_, v = a.partition('=')
        if a in VALUED:
            check(i + 1 < len(args), f'{a} has no value in {args}')
            i += 1
            k, v = VALUED[a], args[i]
            check(k not in options, f'{k} is given twice in {args}')
            options[k] = v
        elif a in MARKS:
            options[MARKS[a]] = True
        elif eq_ and key in VALUED:
            check(VALUED[key] not in options, f'{key} is given twice in {args}')
            options[VALUED[key]] = v
        else:
            check(eq_ and not a.startswith('-'), f'{a!r} is neither an option nor a parameter in {args}')
            check(key not in params, f'parameter {key} is given twice in {args}')
            params[key] = v
        i += 1
    return options, params


def same_value(text, v, what):
    if isinstance(v, str):
        eq(text, v, what)
    elif isinstance(v, int):
        eq(text, str(v), what)
    else:
        try:
            check(float(text) == v, f'{what} is {text!r} instead of {v!r}')
        except ValueError:
            raise engine.Violation(f'{what} is {text!r} instead of {v!r}')


def same_point(params, point, what):
    eq(sorted(params), sorted(point), f'{what}: parameters')
    for n, v in point.items():
        same_value(params[n], v, f'{what}: value of {n}')


# ---------------------------------------------------------------- Python
VALUE = st.one_of(NUMBERS, NUMBERS, st.sampled_from(TEXTS), st.sampled_from(COLON))


@st.composite
def axis(draw, n):
    kind = draw(st.sampled_from(('list', 'list', 'tuple', 'range', 'array')))
    if kind == 'range' and n > 1:
        return ['range', draw(st.integers(-5, 5)), n, draw(st.sampled_from([1, -1, 2, 0.5, -0.25]))]
    if kind == 'array':
        return ['array', [draw(st.integers(-100, 100)) / draw(st.sampled_from((1, 4))) for _ in range(n)]]
    return ['tuple' if kind == 'tuple' else 'list', [draw(VALUE) for _ in range(n)]]


@st.composite
def fixed(draw):
    return draw(st.one_of(st.tuples(st.just('value'), VALUE).map(list), st.tuples(st.just('single'), VALUE, st.sampled_from((None, 1, 1))).map(list),
                          st.tuples(st.just('list'), st.lists(VALUE, min_size=1, max_size=1)).map(list)))


@st.composite
def parameters(draw):
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4))
    grid = draw(st.booleans())
    n = draw(st.sampled_from((1, 2, 3, 5)))
    out = []
    for k in names:
        m = draw(st.sampled_from((1, 2, 3))) if grid else n
        out.append([k, draw(fixed()) if draw(st.booleans()) or m == 1 else draw(axis(m))])
    if not grid and len(names) > 1 and draw(st.integers(0, 9)) == 9:
        out[-1][1] = draw(axis(n + 1))
    if names and draw(st.integers(0, 19)) == 19:          # no values: no such scan
        out[draw(st.integers(0, len(out) - 1))][1] = [draw(st.sampled_from(('list', 'tuple', 'array'))), []]
    return {'params': out, 'grid': grid}


def values(spec):
    k = spec[0]
    if k in ('list', 'tuple', 'array'):
        return list(spec[1])
    if k == 'range':
        return [spec[1] + i * spec[3] for i in range(spec[2])]
    return [spec[1]]


def as_object(spec):
    import numpy as np
    from mccode_antlr.run.range import MRange, Singular
    k = spec[0]
    if k == 'range':
        return MRange(spec[1], spec[1] + (spec[2] - 1) * spec[3], spec[3])
    if k == 'single':
        return Singular(spec[1], spec[2])
    return {'list': list, 'tuple': tuple, 'array': lambda x: np.array(x, dtype=float), 'value': lambda x: x}[k](spec[1])


def points(case):
    """the points of the scan, or nothing if there is no such scan"""
    names = [n for n, _ in case['params']]
    lists = [values(s) for _, s in case['params']]
    lists = [[float(v) for v in x] if s[0] == 'array' else x for x, (_, s) in zip(lists, case['params'])]
    if not all(lists):
        return None
    if case['grid']:
        return [dict(zip(names, p)) for p in product(*lists)]
    n = max([len(x) for x in lists] or [1])
    if any(len(x) not in (1, n) for x in lists):
        return None
    return [dict(zip(names, [x[i] if len(x) > 1 else x[0] for x in lists])) for i in range(n)]


OPTIONS = st.fixed_dictionaries({}, optional={'seed': st.one_of(st.integers(1, 2**31), st.just(0)), 'ncount': st.sampled_from((0, 1, 1000, 10**10)), 'trace': st.booleans(),
                                              'gravitation': st.booleans(), 'bufsiz': st.integers(1, 10**6), 'format': st.sampled_from(('NeXus', 'McCode', 'my format'))})
SHORT = {'seed': 's', 'ncount': 'n', 'trace': 't', 'gravitation': 'g'}


def expected_options(options):
    return {k: v if v is True else str(v) for k, v in options.items() if v is not False}


def judge(runs, want, options, what, directory, output, binary):
    """*runs*: arguments of every run"""
    eq(len(runs), len(want), f'{what}: number of runs')
    dirs = []
    for i, (args, point) in enumerate(zip(runs, want)):
        w = f'{what} point {i}: {args}'
        check(Path(args[0]).resolve() == Path(binary).resolve(), f'{w} is not the program')
        opts, params = understood(args[1:])
        check('dir' in opts, f'{w} has no output directory')
        dirs.append(Path(opts.pop('dir')).resolve())
        eq(opts, expected_options(options), f'{w}: options')
        same_point(params, point, w)
    eq(len(set(dirs)), len(dirs), f'{what}: output directories {dirs}')
    for d in dirs:
        if directory is not None:
            root = Path(directory).resolve()
            check(d == root if len(want) == 1 else root in d.parents, f'{what}: output in {d}, not {directory}')
        check((d / 'mon.dat').exists(), f'{what}: {d} has no data')
    return dirs


def results(got, want, what, output, extra=()):
    got = got if len(want) > 1 else [got]
    eq(len(got), len(want), f'{what}: number of results')
    for i, (text, dats) in enumerate(got):
        names = {'mon': 2, **{n.split('/')[-1].removesuffix('.dat'): len(n) for n in extra}}
        eq(sorted(dats), sorted(names), f'{what}: data files of point {i}')
        for n, c in names.items():
            eq([float(v) for v in dats[n].data.ravel()], [i, 1, c], f'{what}: data of {n} of point {i}')
        check(float(dats['mon']['I'].ravel()[0]) == i, f'{what}: data of point {i} are those of run {dats["mon"]["I"]}')
        if output:
            eq(text.decode(), f'run {i}\n', f'{what}: output of point {i}')


EXTRA = ['a.b.dat', 'mon_2.dat', 'sub/inner.dat', 'other.d/x.y.dat', 'Mon.dat', 'E 1.dat']


@st.composite
def scans(draw):
    case = draw(parameters())
    case.update(options=draw(OPTIONS), short=draw(st.booleans()), directory=draw(st.sampled_from(('out', 'o u t', 'deep/er', None))), text=draw(st.booleans()),
                folder=draw(st.sampled_from(('d', 'a folder'))), name=draw(st.sampled_from(('sim.out', 'my sim', 'x'))), dry=draw(st.integers(0, 9)) == 9, capture=draw(st.booleans()),
                extra=draw(st.lists(st.sampled_from(EXTRA), unique=True, max_size=3)))
    return case


@sub('scan', scans(), quick=800, thorough=20000, rule='scans over lists, ranges, arrays and single values run a recorder')
def scan(case, rec):
    from mccode_antlr.compiler.c import CBinaryTarget
    from mccode_antlr.run.runner import mccode_run_scan
    pars = {n: as_object(s) for n, s in case['params']}
    want = points(case)
    options = {(SHORT[k] if case['short'] and k in SHORT else k): v for k, v in case['options'].items()}
    what = f'scan of {pars}, grid={case["grid"]}, {options} in {case["directory"]}'
    with Place(case['folder'], case['name'], case['capture'], case['extra']) as p, cgen.quiet():
        directory = case['directory'] and p.root / case['directory']
        args = ('name', p.binary, CBinaryTarget(), pars, str(directory) if directory and case['text'] else directory, case['grid'])
        try:
            got = mccode_run_scan(*args, capture=case['capture'], dry_run=case['dry'], **options)
        except ValueError as e:
            check(want is None, f'{what} is refused: {e}')
            eq(p.runs(), [], f'{what}: refused, but runs')
            rec.label('refused')
            return
        check(want is not None, f'{what} has parameters with different numbers of values')
        runs = p.runs()
        if case['dry']:
            eq(runs, [], f'{what} as a dry run: runs')
            rec.label('dry')
            return
        judge(runs, want, case['options'], what, directory, case['capture'], p.binary)
        results(got, want, what, case['capture'], case['extra'])
    rec.label('grid' if case['grid'] else 'linear')
    rec.nontrivial(len(want) > 1 and len(pars) > 1 or any(isinstance(v, str) for x in want for v in x.values()), key=case)


@sub('compiled', st.tuples(st.lists(st.tuples(st.sampled_from(NAMES), VALUE).map(list), unique_by=lambda x: x[0], max_size=4), OPTIONS,
                           st.sampled_from(('out', 'o u t')), st.booleans(), st.booleans(), st.sampled_from((None,) * 6 + ('fail', 'kill'))).map(list), quick=400, thorough=8000,
     rule='single runs, with arguments as text or as a list')
def compiled(case, rec):
    from mccode_antlr.compiler.c import CBinaryTarget
    from mccode_antlr.run import mccode_run_compiled
    pars, options, directory, as_text, path, fail = case
    pars = dict(pars)
    if fail:
        pars['x'] = fail
    args = [f'--{k}' if v is True else f'--{k}={v}' for k, v in options.items() if v is not False] + [f'{n}={v}' for n, v in pars.items()]
    if as_text and any(w != w.strip() or len(w.split()) != 1 for w in args):
        as_text = False
    what = f'run with {args}'
    with Place() as p, cgen.quiet():
        d = p.root / directory
        try:
            got = mccode_run_compiled(p.binary, CBinaryTarget(), d if path else str(d), ' '.join(args) if as_text else args)
        except RuntimeError as e:
            check(fail, f'{what} fails: {e}')
            eq(len(p.runs()), 1, f'{what}: number of runs')
            rec.label('failed')
            return
        check(not fail, f'{what}: a failure of the simulation is not reported')
        judge(p.runs(), [pars], options, what, d, True, p.binary)
        results(got, [pars], what, True)
    rec.label('text' if as_text else 'list')
    rec.nontrivial(len(pars) > 1 or any(isinstance(v, str) for v in pars.values()), key=case)


# ---------------------------------------------------------------- the command
WORDS = [t for t in TEXTS if t != ''] + ['']


@st.composite
def command(draw):
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4))
    mesh = draw(st.booleans())
    n = draw(st.sampled_from((1, 2, 4)))
    params = []
    for k in names:
        m = draw(st.sampled_from((1, 2, 3))) if mesh else n
        if m == 1 or draw(st.booleans()):
            t = draw(st.sampled_from(TEXTS + ['1', '-2', '0.5', '1e-3', '-1.25', '0', '12345678901', '.5', '+3', '1e5']))
            params.append([k, t, None])
        else:
            start, step = draw(st.integers(-5, 5)), draw(st.sampled_from((1, 2, -1, -3)))
            text = f'{start}:{start + (m - 1) * step}' if step == 1 and draw(st.booleans()) else f'{start}:{step}:{start + (m - 1) * step}'
            params.append([k, text, [start + i * step for i in range(m)]])
    opts = []
    for k, v in draw(OPTIONS).items():
        if v is not False:
            opts.append([k, v, draw(st.integers(0, 2))])
    if mesh:
        opts.append(['mesh', True, draw(st.integers(0, 2))])
    if draw(st.booleans()):
        opts.append(['directory', draw(st.sampled_from(('out', 'o u t', 'deep/er'))), draw(st.integers(0, 2))])
    for k in ('dryrun', 'verbose'):
        if draw(st.integers(0, 9)) == 9:
            opts.append([k, True, 1])
    if draw(st.integers(0, 4)) == 4:
        opts.append(['parallel', True, 1])
        if draw(st.booleans()):
            opts.append(['process-count', draw(st.integers(1, 8)), draw(st.integers(1, 2))])
    order = draw(st.permutations(range(len(opts))))
    return {'params': params, 'opts': [opts[i] for i in order], 'where': [draw(st.integers(0, len(params) + 1)) for _ in opts],
            'folder': draw(st.sampled_from(('d', 'a folder'))), 'pairs': draw(st.integers(0, 3)) == 0}


LETTER = {'ncount': '-n', 'seed': '-s', 'trace': '-t', 'gravitation': '-g', 'mesh': '-m', 'directory': '-d'}


def words(k, v, form):
    long = f'--{k}'
    if v is True:
        return [LETTER[k] if form == 0 and k in LETTER else long]
    if form == 0 and k in LETTER:
        return [LETTER[k], str(v)]
    return [f'{long}={v}'] if form == 1 else [long, str(v)]


def number(t):
    for f in (int, float):
        try:
            return f(t)
        except ValueError:
            pass
    return t


@sub('command', command(), quick=700, thorough=15000, rule='the command mcrun-antlr with options and parameters in any order')
def command_(case, rec):
    from mccode_antlr.config import config
    from mccode_antlr.run import runner
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    opts = {k: v for k, v, _ in case['opts']}
    with Place(case['folder'], 'sim.out', 'verbose' not in opts) as p:
        positional = [[str(p.binary)]]
        for n, t, _ in case['params']:
            pair = case['pairs'] and '=' not in t and not t.startswith('-') and t
            positional.append([n, t] if pair else [f'{n}={t}'])
        args = []
        for i in range(len(positional) + 1):
            for (k, v, form), w in zip(case['opts'], case['where']):
                if min(w, len(positional)) == i:
                    args += words(k, v, form)
            if i < len(positional):
                args += positional[i]
        what = f'mcrun {args}'
        lists = [[number(t)] if r is None else r for _, t, r in case['params']]
        names = [n for n, _, _ in case['params']]
        if 'mesh' in opts:
            want = [dict(zip(names, x)) for x in product(*lists)]
        else:
            k = max(map(len, lists))
            want = [dict(zip(names, [x[i] if len(x) > 1 else x[0] for x in lists])) for i in range(k)]
        if 'parallel' in opts:
            config['mpi']['run'].set(str(recorder(p.root / 'bin', 'mpirun')))
        old = sys.argv
        sys.argv = ['mcrun', *args]
        try:
            with cgen.quiet():
                runner.mccode_run_cmd('mcstas', L.memory({}), MCSTAS_GENERATOR)
        except SystemExit as e:
            raise engine.Violation(f'{what} is refused')
        finally:
            sys.argv = old
        runs = p.runs()
        if 'dryrun' in opts:
            eq(runs, [], f'{what}: runs')
            rec.label('dryrun')
            return
        if 'parallel' in opts:
            count = opts.get('process-count')
            for r in runs:
                eq(r[1:1 + 2 * bool(count)], ['-np', str(count)] if count else [], f'{what}: number of processes in {r}')
            runs = [r[1 + 2 * bool(count):] for r in runs]
        keep = {k: v for k, v in opts.items() if k in ('seed', 'ncount', 'trace', 'gravitation', 'bufsiz', 'format')}
        directory = p.root / 'cwd' / opts['directory'] if 'directory' in opts else None
        judge(runs, want, keep, what, directory, False, p.binary)
    rec.label(*opts)
    rec.nontrivial(len(want) > 1 and len(names) > 1 or any(isinstance(v, str) for x in want for v in x.values()), key=case)


# ---------------------------------------------------------------- a compiled instrument
SHOW = '''DEFINE COMPONENT Show SETTING PARAMETERS (double x=0, int i=0, string s="")
INITIALIZE %{
  FILE *f = fopen(getenv("VERIF_LOG"), "a");
  fprintf(f, "%.17g %d ", x, i);
  for (char *c = s; *c; c++) fprintf(f, "%02x", (unsigned char) *c);
  fprintf(f, "\\n");
  fclose(f);
%}
TRACE %{ %}
END'''


@st.composite
def whole(draw):
    n = draw(st.sampled_from((1, 2, 3)))
    x = draw(st.lists(NUMBERS, min_size=n, max_size=n))
    i = draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=1))
    texts = draw(st.lists(st.sampled_from([t for t in TEXTS + COLON if t != 'x\ny']), min_size=n, max_size=n))
    out = {}
    for k, v in (('x', x), ('i', i), ('s', texts)):
        if draw(st.integers(0, 3)):
            out[k] = v
    return {'values': out, 'grid': draw(st.booleans()), 'again': draw(st.booleans()), 'seed': draw(st.sampled_from((None, 5)))}


@sub('real', whole(), quick=30, thorough=500, rule='an instrument is compiled and run')
def real(case, rec):
    import time
    from mccode_antlr.compiler import check as compiler_check
    from mccode_antlr.run import runner
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    if not case['values']:
        return
    compiler_check.simple_instr_compiles = lambda which: True   # it needs files from the network
    instr = L.parse_instr('DEFINE INSTRUMENT shown(double x=0.25, int i=7, string s="none") TRACE COMPONENT show = Show(x=x, i=i, s=s) AT (0,0,0) ABSOLUTE END',
                          registries=[L.memory({'Show': SHOW}), cgen.registry()])
    default = {'x': 0.25, 'i': 7, 's': 'none'}
    names = list(case['values'])
    lists = list(case['values'].values())
    if case['grid']:
        want = [dict(default, **dict(zip(names, v))) for v in product(*lists)]
    else:
        n = max(map(len, lists))
        want = [dict(default, **{k: v[j] if len(v) > 1 else v[0] for k, v in case['values'].items()}) for j in range(n)]
    what = f'{case}'
    with Place() as p, cgen.quiet():
        for turn in range(2 if case['again'] else 1):
            out = p.root / 'a folder'
            out.mkdir(exist_ok=True)
            if turn:
                time.sleep(1.1)     # output folders are named by the time, in seconds
                p.log.unlink()
            runner.mccode_run(instr, MCSTAS_GENERATOR, dict(case['values']), out if turn else str(out), mesh=case['grid'], seed=case['seed'], ncount=1)
            got = [l.split(' ') for l in p.log.read_text().split('\n')[:-1]]
            eq(len(got), len(want), f'{what} turn {turn}: number of runs')
            for g, w in zip(got, want):
                check(float(g[0]) == float(w['x']), f'{what}: x is {g[0]} instead of {w["x"]}')
                eq(int(g[1]), w['i'], f'{what}: i')
                eq(bytes.fromhex(g[2]).decode(), w['s'], f'{what}: s')
    rec.nontrivial(len(want) > 1, key=case)


# ---------------------------------------------------------------- the Python function, with all of its arguments
@st.composite
def calls(draw):
    case = draw(parameters())
    case.update(options=draw(OPTIONS), verbose=draw(st.booleans()), parallel=draw(st.sampled_from((None, None, 0, 1, 3))), name=draw(st.sampled_from((None, None, 'my sim', 'x.out'))),
                dry=draw(st.integers(0, 9)) == 9, source=draw(st.booleans()), text=draw(st.booleans()))
    return case


@sub('function', calls(), quick=300, thorough=8000, rule='mccode_run with a program which exists, and any of its arguments')
def function(case, rec):
    from mccode_antlr.config import config
    from mccode_antlr.run import runner
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    instr = L.parse_instr('DEFINE INSTRUMENT shown(double x=0) TRACE END', registries=[])
    pars = {n: as_object(s) for n, s in case['params']}
    want = points(case)
    opts = {{'bufsiz': 'bufsize', 'format': 'fmt'}.get(k, k): v for k, v in case['options'].items()}
    what = f'mccode_run of {pars}, mesh={case["grid"]}, {opts}, {case["parallel"]}'
    with Place('a folder', case['name'] or 'shown', False) as p, cgen.quiet():
        if case['parallel'] is not None:
            opts.update(parallel=True, process_count=case['parallel'])
            config['mpi']['run'].set(str(recorder(p.root / 'bin', 'mpirun')))
        try:
            runner.mccode_run(instr, MCSTAS_GENERATOR, pars, str(p.root / 'a folder') if case['text'] else p.root / 'a folder', mesh=case['grid'], verbose=case['verbose'],
                              dryrun=case['dry'], source=case['source'], **({'binary_name': case['name']} if case['name'] else {}), **opts)
        except ValueError as e:
            check(want is None, f'{what} is refused: {e}')
            eq(p.runs(), [], f'{what}: refused, but runs')
            rec.label('refused')
            return
        check(want is not None, f'{what} has parameters with different numbers of values')
        runs = p.runs()
        if case['dry']:
            eq(runs, [], f'{what} as a dry run: runs')
            rec.label('dry')
            return
        if case['parallel'] is not None:
            n = case['parallel']
            for r in runs:
                eq(r[1:1 + 2 * bool(n)], ['-np', str(n)] if n else [], f'{what}: number of processes in {r}')
            runs = [r[1 + 2 * bool(n):] for r in runs]
        for d in judge(runs, want, case['options'], what, None, False, p.binary):
            check((p.root / 'a folder').resolve() in d.parents, f'{what}: output in {d}')
    rec.label('grid' if case['grid'] else 'linear', 'parallel' if case['parallel'] is not None else 'serial')
    rec.nontrivial(len(want) > 1 and len(pars) > 1 or any(isinstance(v, str) for x in want for v in x.values()), key=case)


# ---------------------------------------------------------------- the command with an instrument file
PLACES = ['one', 'two', 'three/one', 'work', 'library']


@st.composite
def programs(draw):
    comps = []
    for i in range(draw(st.integers(1, 4))):
        own = draw(st.lists(st.sampled_from(PLACES), unique=True, min_size=1, max_size=3))
        if 'work' in own and own != ['work'] and own != ['work', 'library']:
            # which is first is not specified
            own.remove('work')
        comps.append(own)
    return {'comps': comps, 'order': draw(st.permutations(PLACES[:3])), 'form': draw(st.integers(0, 2)), 'stored': draw(st.integers(0, 3)) == 0, 'output': draw(st.sampled_from((None, None, 'other', 'x.bin'))),
            'values': draw(st.lists(NUMBERS, min_size=1, max_size=2)), 'trace': draw(st.booleans()), 'source': draw(st.booleans()), 'flavor': draw(st.sampled_from(('mcstas', 'mcxtrace'))), 'command': draw(st.booleans())}


@sub('folders', programs(), quick=24, thorough=400, rule='the command compiles and runs an instrument with components in several folders')
def folders(case, rec):
    from mccode_antlr import reader
    from mccode_antlr.compiler import check as compiler_check
    from mccode_antlr.io import save_hdf5
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    from mccode_antlr.run import runner
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    compiler_check.simple_instr_compiles = lambda which: True   # it needs files from the network
    with Place(output=False) as p:
        cwd = p.root / 'cwd'
        paths = {n: cwd if n == 'work' else p.root / n for n in PLACES}
        for d in paths.values():
            d.mkdir(parents=True, exist_ok=True)
        rt = p.root / 'rt'
        shutil.copytree(cgen.RUNTIME, rt)
        (rt / 'mccode-r.h').write_text('')
        for f in ('mcstas', 'mcxtrace'):
            r = rt / f'{f}-r.h'
            r.write_text(f'#define VERIF_FLAVOR "{f}"\n' + (r.read_text() if r.exists() else ''))
        want, lines = [], []
        for k, own in enumerate(case['comps']):
            for n in own:
                show = SHOW.replace('DEFINE COMPONENT Show', f'DEFINE COMPONENT Show{k}').replace('fprintf(f, "%.17g', f'fprintf(f, "{k} {n} " VERIF_FLAVOR " %.17g')
                (paths[n] / f'Show{k}.comp').write_text(show)
            first = next(n for n in [*case['order'], 'work', 'library'] if n in own)
            want.append(first)
            lines.append(f'COMPONENT show{k} = Show{k}(x=x, i={k}) AT (0,0,{k}) ABSOLUTE')
        text = 'DEFINE INSTRUMENT shown(double x=0.25) TRACE ' + '\n'.join(lines) + ' END'
        file = cwd / 'shown.instr'
        file.write_text(text)
        library = LocalRegistry('library', str(paths['library']), priority=-10)
        other = L.memory({'Other': 'DEFINE COMPONENT Other TRACE %{ %} END'}, 'other')
        search = [p.root / n for n in case['order']] + [rt]
        if case['stored']:
            with cgen.quiet():
                instr = Reader(registries=[LocalRegistry('rt', str(rt)), *[LocalRegistry(f'r{i}', str(d)) for i, d in enumerate([*search[:-1], cwd])], library]).get_instrument(file)
            save_hdf5(instr, cwd / 'shown.h5')
            file = cwd / 'shown.h5'
        forms = [lambda d: ['-I', str(d)], lambda d: [f'-I{d}'], lambda d: ['--search-dir', os.path.relpath(d, cwd)]]
        values = ':'.join(map(str, case['values'][:1]))
        args = [file.name, *[w for i, d in enumerate(search) for w in forms[(case['form'] + i) % 3](d)], f'x={values}', '-n', '1', '-d', 'out']
        if case['output']:
            args += ['-o', case['output']]
        if case['trace']:
            args.append('--trace')
        if case['source']:
            args.append('--source')
        what = f'{case["flavor"]} run {args} with {case["comps"]}'
        old = sys.argv
        sys.argv = ['mcrun', *args]
        try:
            with cgen.quiet(), ExitStack() as stack:
                if case['command']:
                    # the library of the other flavour has none of the components
                    for module in (reader, reader.registry, runner):
                        for f in ('mcstas', 'mcxtrace'):
                            if hasattr(module, f'{f.upper()}_REGISTRY'):
                                stack.enter_context(mock.patch.object(module, f'{f.upper()}_REGISTRY', library if f == case['flavor'] else other))
                    (runner.mcstas_cmd if case['flavor'] == 'mcstas' else runner.mcxtrace_cmd)()
                else:
                    runner.mccode_run_cmd(case['flavor'], library, MCSTAS_GENERATOR if case['flavor'] == 'mcstas' else MCXTRACE_GENERATOR)
        except SystemExit:
            raise engine.Violation(f'{what} is refused')
        finally:
            sys.argv = old
        got = [l.split(' ') for l in p.log.read_text().split('\n')[:-1]] if p.log.exists() else []
        eq([g[:3] for g in got], [[str(k), n, case['flavor']] for k, n in enumerate(want)], f'{what}: component types which were run')
        for k, g in enumerate(got):
            check(float(g[3]) == float(values), f'{what}: x is {g[3]}')
            eq(int(g[4]), k, f'{what}: i')
        exe = cwd / (case['output'] or 'shown.out')
        check(exe.exists(), f'{what}: no {case["output"] or "shown.out"} in {sorted(os.listdir(cwd))}')
        if not case['stored']:
            eq(text.encode() in exe.read_bytes(), case['source'], f'{what}: the program contains the text of the instrument')
    rec.label('stored' if case['stored'] else 'text', case['flavor'])
    rec.nontrivial(any(len(x) > 1 for x in case['comps']), key=case)
