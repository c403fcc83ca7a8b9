"""B01: building gives the program asked for or an error, and running starts exactly that program."""
import os
import subprocess
import sys
from pathlib import Path

from hypothesis import strategies as st

from vlib import boot, cgen, engine, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: a target other than the plain one, an output which exists, or a failure'
ASSUMPTIONS = ['the compilers and mpirun are scripts which record how they are called; on Linux only',
               'what becomes of the output file when the compiler fails is left to the compiler',
               'an MPI run on a GPU is refused (NotImplementedError)',
               'a text of options is separated at white space, a list of options is not',
               'machinefile is a key of the configuration which need not be set']

COMPILER = '''#!/bin/sh
{ for a in "$@"; do printf '%s\\n' "$a"; done; echo '--end--'; } >> "$0.log"
cat > "$0.stdin"
out=
prev=
for a in "$@"; do [ "$prev" = -o ] && out="$a"; prev="$a"; done
case "$(cat "$0.do")" in
  fail) echo 'some words'; echo 'error: number 4711' >&2; exit 3;;
  nothing) exit 0;;
esac
printf 'made by %s' "$0" > "$out" || exit 4
chmod +x "$out"
'''
KINDS = ('mpi', 'acc', 'nexus')


def expected_compiler(kind):
    return 'acc' if kind['acc'] else 'mpicc' if kind['mpi'] else 'cc'


def kinds():
    return st.fixed_dictionaries({k: st.sampled_from((False, False, True)) for k in KINDS})


def target_of(case):
    from mccode_antlr.compiler.c import CBinaryTarget
    t = CBinaryTarget(count=case.get('count', 1), **case['kind'])
    want = dict(case['kind'], count=case.get('count', 1))
    for change in case['updates']:
        t.update(dict(change))
        want.update({k: v for k, v in change.items() if k in want})
    return t, want


UPDATES = st.lists(st.fixed_dictionaries({}, optional={'mpi': st.booleans(), 'acc': st.booleans(), 'nexus': st.booleans(), 'count': st.integers(0, 20), 'other': st.just(1)}), max_size=2)


WORDS = [('-Dword -lx', ['-Dword', '-lx']), ("-DT='two words' -lx", ['-DT=two words', '-lx']), ("'-La b/c'  -lx ", ['-La b/c', '-lx']), ('-lx -ly -lx', ['-lx', '-ly', '-lx']), ('-DN=1,2 -Wl,-rpath=$ORIGIN', ['-DN=1,2', '-Wl,-rpath=$ORIGIN'])]


@st.composite
def building(draw):
    return {'kind': draw(kinds()), 'updates': draw(UPDATES), 'out': draw(st.sampled_from((None, '.', 'dir', 'dir', 'x', 'x.out', 'x.c', 'dir/y', 'no/such', 'a b/é', 'my.instr.out'))), 'text': draw(st.booleans()),
            'exists': draw(st.sampled_from((False, False, True))), 'replace': draw(st.booleans()), 'dump': draw(st.booleans()), 'does': draw(st.sampled_from(('ok', 'ok', 'ok', 'fail', 'nothing'))),
            'name': draw(st.sampled_from(('t', 'Long_name', 'x'))), 'mcstas': draw(st.booleans()), 'positional': draw(st.booleans()),
            'config': {k: draw(st.booleans()) for k in ('default_main', 'enable_trace', 'portable')}, 'environment': draw(st.booleans()),
            'words': [draw(st.integers(-1, len(WORDS) - 1)) for _ in range(2)]}


def without_date(text):
    return '\n'.join(l for l in text.split('\n') if 'Date' not in l and 'date' not in l)


class Place:
    """a folder with stand-ins for compilers, the configuration which names them, and a working directory"""

    def __init__(self, does='ok', environment=False, **settings):
        self.does, self.environment, self.settings = does, environment, settings

    def __enter__(self):
        from mccode_antlr.config import config
        self.scratch = cgen.scratch()
        self.root = Path(self.scratch.__enter__())
        self.bin, self.work = self.root / 'bin', self.root / 'work'
        self.bin.mkdir()
        self.work.mkdir()
        for n in ('cc', 'mpicc', 'acc'):
            (self.bin / n).write_text(COMPILER)
            (self.bin / n).chmod(0o755)
            (self.bin / f'{n}.do').write_text(self.does)
        config['flags'].get()
        self.config, self.sources, self.cwd, self.environ = config, list(config.sources), os.getcwd(), dict(os.environ)
        os.environ['VERIF_BIN'] = str(self.bin)
        b = '$VERIF_BIN' if self.environment else str(self.bin)
        config.set(dict({'cc': f'{b}/cc', 'acc': f'{b}/acc', 'mpi': {'cc': f'{b}/mpicc', 'run': f'{b}/mpirun'}, 'ext': '.out',
                         'flags': {'cc': '-O1 -cc', 'acc': '-acc', 'mpi': '-DMPI -lmpi', 'nexus': '-DNX', 'ld': '-lm -ld'}}, **self.settings))
        os.chdir(self.work)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.environ)
        self.config.clear()
        for s in reversed(self.sources):
            self.config.add(s)
        return self.scratch.__exit__(*a)


def tree(folder):
    return {str(p.relative_to(folder)): p.read_bytes() for p in sorted(folder.rglob('*')) if p.is_file()}


@sub('build', building(), quick=400, thorough=8000, rule='an instrument is compiled for any target, to any place, by a compiler which may fail')
def build(case, rec):
    from mccode_antlr.compiler import c, check as compiler_check
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    compiler_check.simple_instr_compiles = lambda which: True   # it needs files from the network
    target, want = target_of(case)
    generator = MCSTAS_GENERATOR if case['mcstas'] else MCXTRACE_GENERATOR
    with Place(case['does'], case['environment']) as p:
        for d in ('dir', 'a b'):
            (p.work / d).mkdir()
        depend = [f'DEPENDENCY "{WORDS[k][0]}"' if k >= 0 else '' for k in case['words']]
        own = [w for k in dict.fromkeys(case['words']) if k >= 0 for w in WORDS[k][1]]
        instr = L.parse_instr(f'DEFINE INSTRUMENT {case["name"]}(a=1) {depend[0]} TRACE COMPONENT b = B() AT (0,0,a) ABSOLUTE END',
                              registries=[L.memory({'B': f'DEFINE COMPONENT B {depend[1]} TRACE %{{ %}} END'}), cgen.registry()])
        config = dict(case['config'], include_runtime=True, embed_instrument_file=False, verbose=False)
        out = case['out']
        final = p.work / (f'{case["name"]}.out' if out in (None, '.') else f'dir/{case["name"]}.out' if out == 'dir' else out)
        if case['exists'] and final.parent.is_dir():
            final.write_text('as it was')
        there = final.exists()
        before = tree(p.work)
        given = out if out is None or case['text'] else Path(out)
        what = f'{case}:'
        options = dict(generator=generator, config=config)
        error = None
        with cgen.quiet():
            try:
                if case['positional']:
                    got = c.compile_instrument(instr, target, given, case['replace'], case['dump'], **options)
                else:
                    got = c.compile_instrument(instr, target, output=given, replace=case['replace'], dump_source=case['dump'], **options)
            except RuntimeError as e:
                error = e
        logs = sorted(x.name for x in p.bin.glob('*.log'))
        after = tree(p.work)
        if there and not case['replace']:
            check(error is None, f'{what} fails although the output is there: {error}')
            eq(Path(got).resolve(), final.resolve(), f'{what} the program')
            eq(logs, [], f'{what} compilers which are run although the output is there')
            eq(after, before, f'{what} the files')
            rec.label('there')
            rec.nontrivial(key=case)
            return
        which = expected_compiler(want)
        eq(logs, [f'{which}.log'], f'{what} compilers which are run')
        runs = (p.bin / f'{which}.log').read_text().split('--end--\n')[:-1]
        eq(len(runs), 1, f'{what} number of compilations')
        args = runs[0].split('\n')[:-1]
        eq(args.count('-o'), 1, f'{what} outputs in {args}')
        eq(Path(args[args.index('-o') + 1]).resolve(), final.resolve(), f'{what} output of the compiler')
        flags = (['-acc'] if want['acc'] else ['-O1', '-cc']) + (['-DMPI', '-lmpi'] if want['mpi'] else []) + (['-DNX'] if want['nexus'] else []) + ['-lm', '-ld'] + own
        check(args.count('-') == 1 and all(args.index('-') < i for i, a in enumerate(args) if a in ('-lm', '-ld', '-lx', '-ly')), f'{what} libraries which are before the source in {args}')
        eq(sorted(a for i, a in enumerate(args) if a not in ('-o', '-', '-D__GNUC__') and (i == 0 or args[i - 1] != '-o')), sorted(flags), f'{what} flags')
        with cgen.quiet():
            source = c.instrument_source(instr, generator, config)
        eq(without_date((p.bin / f'{which}.stdin').read_text()), without_date(source), f'{what} source given to the compiler')
        possible = case['does'] == 'ok' and final.parent.is_dir()
        expected = dict(before)
        if case['dump']:
            # it is in the working directory, with the name of the program
            dumped = str(Path(final.name).with_suffix('.c'))
            eq(without_date(after.get(dumped, b'').decode()) if not (dumped == str(final.relative_to(p.work)) and possible) else without_date(source), without_date(source), f'{what} dumped source')
            expected[dumped] = after.get(dumped)
        if possible:
            check(error is None, f'{what} fails: {error}')
            eq(Path(got).resolve(), final.resolve(), f'{what} the program')
            expected[str(final.relative_to(p.work))] = f'made by {p.bin / which}'.encode()
        elif case['does'] == 'nothing' and final.exists():
            expected = None   # an earlier (or dumped) file stays: nothing can be said
        else:
            check(error is not None, f'{what} no error')
            if case['does'] == 'fail':
                check('number 4711' in str(error), f'{what} the error does not have the message of the compiler: {error}')
        if expected is not None:
            eq(sorted(after), sorted(expected), f'{what} the files')
            eq(after, expected, f'{what} the files')
        rec.label(which, case['does'], 'nexus' if want['nexus'] else 'plain')
        rec.nontrivial(which != 'cc' or case['does'] != 'ok' or there, key=case)


# ---------------------------------------------------------------- running
RUN = '''#!/bin/sh
{ printf '%s\\n' "$0"; for a in "$@"; do printf '%s\\n' "$a"; done; echo '--end--'; } >> "ROOT/runs.log"
'''
MPIRUN = RUN + '''while [ $# -gt 0 ]; do
  case "$1" in -np|-machinefile) shift 2;; *) break;; esac
done
exec "$@"
'''
PROGRAM = RUN + '''echo "to out"; echo "to err" >&2; exit CODE
'''


@st.composite
def running(draw):
    return {'kind': draw(kinds()), 'count': draw(st.sampled_from((1, 0, 2, 4, 16))), 'updates': draw(UPDATES), 'machines': draw(st.sampled_from((None, None, 'hosts', 'my hosts'))), 'capture': draw(st.booleans()),
            'dry': draw(st.integers(0, 5)) == 5, 'code': draw(st.sampled_from((0, 0, 0, 1, 77, 255))), 'missing': draw(st.integers(0, 7)) == 7, 'relative': draw(st.booleans()),
            'program': draw(st.sampled_from(('x.out', 'dir/my prog', 'y'))), 'environment': draw(st.booleans()),
            'options': draw(st.one_of(st.lists(st.sampled_from(('a=1', '--dir=a b', '-n', '10', 'f="x y"', '', '*', '$HOME', '-np', 'é', "it's")), max_size=5),
                                      st.lists(st.sampled_from(('a=1', '--dir=d', '-n', '10', '*', '$HOME', 'é')), max_size=5).map(lambda x: ' '.join(x)), st.sampled_from(('', '  a=1   b=2 ', ' '))))}


@sub('run', running(), quick=600, thorough=12000, rule='a program is run, as it is or by mpirun, and may fail')
def run(case, rec):
    from mccode_antlr.compiler import c
    target, want = target_of(case)
    settings = {'machinefile': f'{"$VERIF_BIN" if case["environment"] else "/etc"}/{case["machines"]}'} if case['machines'] else {}
    with Place('ok', case['environment'], **settings) as p:
        exe = p.work / case['program']
        exe.parent.mkdir(exist_ok=True)
        if not case['missing']:
            exe.write_text(PROGRAM.replace('ROOT', str(p.root)).replace('CODE', str(case['code'])))
            exe.chmod(0o755)
        m = p.bin / 'mpirun'
        m.write_text(MPIRUN.replace('ROOT', str(p.root)))
        m.chmod(0o755)
        before = tree(p.work)
        what = f'{case}:'
        error = None
        options = case['options']
        with cgen.quiet():
            saved = os.dup(1), os.dup(2)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                got = c.run_compiled_instrument(Path(case['program']) if case['relative'] else exe, target, options, capture=case['capture'], dry_run=case['dry'])
            except (RuntimeError, NotImplementedError) as e:
                error = e
            finally:
                os.dup2(saved[0], 1)
                os.dup2(saved[1], 2)
                for f in (*saved, null):
                    os.close(f)
        log = p.root / 'runs.log'
        runs = [x.split('\n')[:-1] for x in log.read_text().split('--end--\n')[:-1]] if log.exists() else []
        eq(tree(p.work), before, f'{what} the files')
        words = options.split() if isinstance(options, str) else options
        if want['mpi'] and want['acc'] or case['missing']:
            check(error is not None, f'{what} no error')
            eq(runs, [], f'{what} refused, but runs')
            rec.label('refused')
        elif case['dry']:
            check(error is None, f'{what} fails: {error}')
            eq(runs, [], f'{what} runs of a dry run')
            rec.label('dry')
        else:
            if want['mpi']:
                head = [str(m)] + (['-np', str(want['count'])] if want['count'] else [])
                if case['machines']:
                    head += ['-machinefile', f'{p.bin if case["environment"] else "/etc"}/{case["machines"]}']
                check(len(runs) == 2, f'{what} runs {runs}')
                eq(runs[0], head + [str(exe.resolve()), *words], f'{what} arguments of mpirun')
            eq(runs[-1:], [[str(exe.resolve()), *words]], f'{what} arguments')
            eq(len(runs), 1 + want['mpi'], f'{what} number of runs')
            if case['code']:
                check(isinstance(error, RuntimeError), f'{what} the failure is not reported')
                if case['capture']:
                    check('to out' in str(error) and 'to err' in str(error), f'{what} what the program said is not in {error}')
            else:
                check(error is None, f'{what} fails: {error}')
                eq(got, b'to out\nto err\n' if case['capture'] else '', f'{what} output')
            rec.label('mpi' if want['mpi'] else 'plain', 'failed' if case['code'] else 'fine')
    rec.nontrivial(want['mpi'] or bool(case['code']) or case['missing'], key=case)


# ---------------------------------------------------------------- with the check of the compiler
WHOLE = '''import sys, json
sys.path.insert(0, SRC)
from loguru import logger
logger.remove()
from pathlib import Path
from mccode_antlr.loader import parse_mcstas_instr
from mccode_antlr.compiler.c import compile_instrument, CBinaryTarget
from mccode_antlr.translators.target import MCSTAS_GENERATOR
instr = parse_mcstas_instr('DEFINE INSTRUMENT t() TRACE COMPONENT a = Arm() AT (0,0,0) ABSOLUTE END')
out = []
for k, kind in enumerate(KINDS):
    try:
        got = compile_instrument(instr, CBinaryTarget(**kind), f'program{k}', generator=MCSTAS_GENERATOR,
                                 config=dict(default_main=True, enable_trace=False, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False))
        out.append(['made', got.read_text()])
    except RuntimeError as e:
        out.append(['refused', str(e)])
print('RESULT ' + json.dumps(out))
'''


@sub('checked', st.tuples(st.lists(kinds(), min_size=1, max_size=3), st.fixed_dictionaries({n: st.sampled_from(('ok', 'ok', 'fail', 'nothing', 'missing')) for n in ('cc', 'mpicc', 'acc')}), st.booleans()).map(list),
     quick=24, thorough=400, rule='a compiler is tried before it is used')
def checked(case, rec):
    import hashlib
    import json
    kind, does, environment = case
    with cgen.scratch() as d:
        env = boot.make_offline(Path(d, 'offline'))
        for registry, files in (('libc', {f'share/{f.name}': f.read_bytes() for f in cgen.RUNTIME.iterdir()}), ('mcstas', {'optics/Arm.comp': b'DEFINE COMPONENT Arm TRACE %{ %} END'})):
            root = Path(env['XDG_CACHE_HOME'], 'mccode_antlr', registry, 'v0.0.0')
            for f, data in files.items():
                (root / f).parent.mkdir(parents=True, exist_ok=True)
                (root / f).write_bytes(data)
            (root / f'{registry}-registry.txt').write_text(''.join(f'{f} {hashlib.sha256(data).hexdigest()}\n' for f, data in files.items()))
        b, work = Path(d, 'bin'), Path(d, 'work')
        b.mkdir()
        work.mkdir()
        for n, do in does.items():
            if do != 'missing':
                (b / n).write_text(COMPILER)
                (b / n).chmod(0o755)
                (b / f'{n}.do').write_text(do)
        name = '$VERIF_BIN' if environment else str(b)
        env = dict(os.environ, **env, VERIF_BIN=str(b), MCCODEANTLR_CC=f'{name}/cc', MCCODEANTLR_ACC=f'{name}/acc', MCCODEANTLR_MPI__CC=f'{name}/mpicc')
        code = WHOLE.replace('SRC', repr(str(boot.REPO / 'src'))).replace('KINDS', repr(kind))
        r = subprocess.run([sys.executable, '-c', code], env=env, cwd=work, capture_output=True, text=True, timeout=120)
        lines = [l for l in r.stdout.splitlines() if l.startswith('RESULT ')]
        what = f'compiling {kind} with {does}{", named by a variable" if environment else ""}:'
        check(lines, f'{what} ends with {r.returncode}: {r.stderr[-1500:]}')
        got = json.loads(lines[0][7:])
        for i, (k, g) in enumerate(zip(kind, got)):
            which = expected_compiler(k)
            if does[which] == 'ok':
                eq(g, ['made', f'made by {b / which}'], f'{what} number {i}')
            else:
                eq(g[0], 'refused', f'{what} number {i}')
                check(not (work / f'program{i}').exists(), f'{what} number {i} is refused, but made')
        for n, do in does.items():
            log = b / f'{n}.log'
            count = log.read_text().count('--end--') if log.exists() else 0
            used = sum(expected_compiler(k) == n for k in kind)
            check(count == 0 if not used else True, f'{what} {n} is run {count} times, for nothing')
    rec.label(*sorted({does[expected_compiler(k)] for k in kind}))
    rec.nontrivial(len({expected_compiler(k) for k in kind}) > 1 or any(does[expected_compiler(k)] != 'ok' for k in kind), key=case)
