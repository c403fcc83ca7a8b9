"""X01: the command line translators write the C which the programming interface gives, and obey their options."""
import contextlib
import ctypes
import io
import json
import os
import re
import subprocess
import sys
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine
from vlib.engine import check, eq
from vlib.props import i01, t03

SUBS, sub = engine.registry()
RULE = 'non-trivial: two folders to search or more, with at least two component types (or a file which is in two of the folders), or two options or more'
ASSUMPTIONS = ['which of the working directory and the -I folders comes first is not specified: no file is in both',
               'the C runtime is the stand-in of /verif, in a folder given by -I',
               'the line with the date of creation differs, as intended']
FLAGS = ['-t', '--trace', '-p', '--portable', '--source', '--no-main', '--no-runtime', '--verbose']
FOLDERS = ['one', 'two', 'other/one', 'a b', 'deep/er/two', 'lib.d']


class Ended(Exception):
    def __init__(self, code, text):
        super().__init__(f'exit with {code}: {text[-500:]}')
        self.code = code


def command(flavor, args, cwd, process=False):
    """Runs mcstas-antlr or mcxtrace-antlr"""
    if process:
        from vlib import boot
        code = f'import sys; sys.path.insert(0, {str(boot.REPO / "src")!r}); from mccode_antlr.cli.commands import {flavor}; {flavor}()'
        r = subprocess.run([sys.executable, '-c', code, *args], cwd=cwd, capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Ended(r.returncode, r.stderr)
        return r.stdout
    from mccode_antlr.cli import commands
    argv, here = sys.argv, os.getcwd()
    out = io.StringIO()
    sys.argv = [flavor + '-antlr', *args]
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            getattr(commands, flavor)()
    except SystemExit as e:
        if e.code not in (0, None):
            raise Ended(e.code, out.getvalue())
    finally:
        os.chdir(here)
        sys.argv = argv
    return out.getvalue()


def settings(flags, flavor, output):
    """What the options stand for"""
    f = set(flags)
    return dict(default_main='--no-main' not in f, enable_trace=bool(f & {'-t', '--trace'}), portable=bool(f & {'-p', '--portable'}),
                include_runtime='--no-runtime' not in f, embed_instrument_file='--source' in f, verbose=False, output=output, flavor=flavor)


def plain(text):
    text = t03.undated(text)
    return re.sub(r'^(\s*\* File:).*$', r'\1', text, flags=re.M)


def decoy(name):
    if name.endswith('.comp'):
        return f'DEFINE COMPONENT {name[:-5]} SETTING PARAMETERS (decoy=1) DECLARE %{{ int decoy; %}} TRACE %{{ exit(77); %}} END'
    if name.endswith('.instr'):
        return f'DEFINE INSTRUMENT {name[:-6]}(decoy=1) TRACE COMPONENT decoy = Nothing_like_this() AT (0,0,0) ABSOLUTE END'
    return '#error this is not the file\n'


def layout(case, root):
    """Writes the files; the arguments, instrument file, working directory, and the one folder which has the right files"""
    built, flags, dirs, where, out, order = (case[k] for k in ('built', 'flags', 'dirs', 'where', 'out', 'order'))
    main, comps, files = built
    cwd, home, right = Path(root, 'work'), Path(root, 'home'), Path(root, 'right')
    for d in (cwd, home, right):
        d.mkdir()
    paths = []
    for d in dirs:
        paths.append(Path(root, 'lib', d))
        paths[-1].mkdir(parents=True, exist_ok=True)
    texts = {f'{n}.comp': t for n, t in comps.items()}
    texts.update({f'{n}.instr': t for n, t in files.items()})
    twice, won = 0, {}
    for k, (name, text) in enumerate(sorted(texts.items())):
        Path(right, name).write_bytes(text.encode())
        w = where[k % len(where)]
        # the one after all folders is the working directory
        n = w % (len(paths) + 1)
        if n == len(paths):
            Path(cwd, name).write_bytes(text.encode())
            won[name] = cwd
            continue
        Path(paths[n], name).write_bytes(text.encode())
        won[name] = paths[n]
        for later in paths[n + 1:]:
            if w % 3 == 0 and not Path(later, name).exists():
                Path(later, name).write_text(decoy(name))
                twice += 1
    runtime = Path(root, 'rt')
    runtime.mkdir()
    for f in cgen.RUNTIME.iterdir():
        Path(runtime, f.name).write_bytes(f.read_bytes())
    Path(runtime, 'mccode-r.h').write_text('')
    paths.insert(order % (len(paths) + 1), runtime)
    place = cwd if order % 2 else home
    instr = Path(place, ['', '', 'v2.', 'my ', '.'][order // 12 % 5] + 'main.instr')
    instr.write_bytes(main.encode())
    name = instr.name if place == cwd and order % 3 else str(instr) if order % 5 else os.path.relpath(instr, cwd)
    args = []
    for n, p in enumerate(paths):
        p = str(p) if (order + n) % 3 else os.path.relpath(p, cwd)
        args.append(['-I', p] if (order + n) % 2 else [f'-I{p}'] if (order + n) % 4 else ['--search-dir', p])
    output = instr.with_suffix('.c')
    if out:
        output = Path(cwd, out)
        args.append(['-o', out] if order % 2 else [f'--output-file={out}'])
    args += [[f] for f in flags]
    # -I keep their order; the other options and the file can be anywhere
    at = order % (len(args) + 1)
    args.insert(at, [name])
    return [a for x in args for a in x], instr, cwd, right, runtime, output, twice, won


def want(case, instr, right, runtime, output):
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    flavor = case['flavor']
    reader = Reader(registries=[LocalRegistry('rt', str(runtime)), LocalRegistry('right', str(right))])
    with cgen.quiet():
        got = reader.get_instrument(instr)
        conf = settings(case['flags'], flavor, str(output))
        from mccode_antlr.translators.c import CTargetVisitor
        from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
        v = CTargetVisitor(got, generate=MCSTAS_GENERATOR if flavor == 'mcstas' else MCXTRACE_GENERATOR, config=conf, verbose=False)
        return v.contents()


PROBE = '''
#ifdef MC_PORTABLE
int probe_portable = 1;
#else
int probe_portable = 0;
#endif
'''


def probe(text, flags, folder, instr_text, what):
    """What the compiled source says of its options"""
    with open(Path(folder, 'probe.c'), 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(text + PROBE)
    r = subprocess.run(['gcc', '-std=gnu99', '-w', '-shared', '-fPIC', '-o', 'probe.so', 'probe.c', '-lm'], cwd=folder, capture_output=True, text=True, errors='replace')
    if r.returncode:
        return False
    lib = ctypes.CDLL(str(Path(folder, 'probe.so')))
    value = lambda n: ctypes.c_int.in_dll(lib, n).value
    f = set(flags)
    eq(value('traceenabled'), int(bool(f & {'-t', '--trace'})), f'{what} traceenabled')
    eq(value('probe_portable'), int(bool(f & {'-p', '--portable'})), f'{what} MC_PORTABLE')
    eq(value('defaultmain'), int('--no-main' not in f), f'{what} defaultmain')
    names = subprocess.run(['nm', '--defined-only', 'probe.so'], cwd=folder, capture_output=True, text=True).stdout.split()
    eq('main' in names, '--no-main' not in f, f'{what} has main()')
    code = ctypes.string_at(ctypes.addressof(ctypes.c_char.in_dll(lib, 'instrument_code')))
    eq(code == instr_text.encode(), '--source' in f, f'{what} has the text of the instrument, {code[:300]!r}')
    return True


@st.composite
def case_(draw, kind=None):
    prog = draw(t03.programs)
    return dict(prog=prog, flags=draw(st.lists(st.sampled_from(FLAGS), unique=True, max_size=4)), dirs=draw(st.lists(st.sampled_from(FOLDERS), unique=True, max_size=4)),
                where=draw(st.lists(st.integers(0, 20), min_size=1, max_size=5)), out=draw(st.sampled_from([None, None, 'out.c', './sim', 'sub/x.c', 'o ut.cc'])),
                order=draw(st.integers(0, 60)), flavor=draw(st.sampled_from(['mcstas', 'mcxtrace'])), process=draw(st.integers(0, 19)) == 19,
                probe=draw(st.integers(0, 5)) == 5)


def prepared(case):
    if case['prog'][0] == 'any':
        case = dict(case, prog=json.loads(json.dumps(case['prog']).replace('\\r', ' ')))
        if i01.zero(case['prog'][1]):
            return None
    built = t03.build(case['prog'])
    return dict(case, built=built) if t03.translatable(built) else None


@sub('translate', case_(), quick=160, thorough=8000, rule='instrument, component and included files in several folders, any options, compared with the programming interface')
def translate(case, rec):
    case = prepared(case)
    if case is None:
        rec.label('untranslatable')
        return
    with cgen.scratch() as d:
        args, instr, cwd, right, runtime, output, twice, won = layout(case, d)
        Path(cwd, 'sub').mkdir()
        expected = want(case, instr, right, runtime, output)
        for name, folder in won.items():
            expected = expected.replace(str(Path(right, name)), str(Path(folder, name)))
        before = {p: p.read_bytes() for p in Path(d).rglob('*') if p.is_file()}
        what = f'{case["flavor"]}-antlr {args}: {case["built"][0]} with {json.dumps(case["built"][1])}:'
        command(case['flavor'], args, cwd, case['process'])
        check(output.is_file(), f'{what} there is no {output}')
        got = output.read_text(encoding='utf-8', errors='surrogateescape')
        t03.differ(plain(got), plain(expected), what)
        after = {p: p.read_bytes() for p in Path(d).rglob('*') if p.is_file() and p != output and '__pycache__' not in str(p)}
        eq(sorted(map(str, set(after) ^ set(before))), [], f'{what} other files which were made or removed')
        eq(sorted(str(p) for p in after if after[p] != before[p]), [], f'{what} other files which were changed')
        if case['probe'] and '--no-runtime' not in case['flags']:
            rec.label('compiled' if probe(got, case['flags'], d, case['built'][0], what) else 'uncompiled')
    rec.label(case['flavor'], case['prog'][0], *case['flags'], 'process' if case['process'] else 'call', 'twice' if twice else 'once', 'output' if case['out'] else 'default-output')
    rec.nontrivial(len(case['dirs']) >= 2 and (twice or len(case['built'][1]) >= 2) or len(case['flags']) >= 2, key=case)


@sub('stored', st.tuples(case_(), st.sampled_from(['.h5', '.h5', '.H5'])).map(list), quick=60, thorough=3000, rule='an instrument stored as HDF5 is translated as its text is')
def stored(case, rec):
    from mccode_antlr.io import save_hdf5
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    case, suffix = case
    case = prepared(case)
    if case is None or '--source' in case['flags']:
        rec.label('left-out')
        return
    with cgen.scratch() as d:
        args, instr, cwd, right, runtime, output, twice, won = layout(dict(case, flags=[f for f in case['flags']]), d)
        Path(cwd, 'sub').mkdir()
        expected = want(case, instr, right, runtime, output)
        with cgen.quiet():
            obj = Reader(registries=[LocalRegistry('rt', str(runtime)), LocalRegistry('right', str(right))]).get_instrument(instr)
            save_hdf5(obj, instr.with_suffix(suffix))
        args = [a[:-len('.instr')] + suffix if a.endswith('main.instr') else a for a in args]
        what = f'{case["flavor"]}-antlr {args}: {case["built"][0]} with {json.dumps(case["built"][1])}:'
        command(case['flavor'], args, cwd, case['process'])
        check(output.is_file(), f'{what} there is no {output}')
        t03.differ(plain(output.read_text(encoding='utf-8', errors='surrogateescape')), plain(expected), what)
    rec.label(case['flavor'], suffix, case['prog'][0], *case['flags'])
    rec.nontrivial(len(case['built'][1]) >= 2 or len(case['flags']) >= 2, key=case)


WRONG = ['no-component', 'no-instrument', 'syntax', 'no-file-given', 'option', 'no-folder', 'jump', 'component-syntax', 'output-folder']


@sub('wrong', st.tuples(case_(), st.sampled_from(WRONG)).map(list), quick=60, thorough=3000, rule='what can not be translated: an error, and no output')
def wrong(case, rec):
    case, kind = case
    case = prepared(case)
    if case is None or not case['built'][1]:
        rec.label('left-out')
        return
    main, comps, files = case['built']
    if kind == 'output-folder':
        case['out'] = 'nowhere/x.c'
    with cgen.scratch() as d:
        args, instr, cwd, right, runtime, output, twice, won = layout(case, d)
        Path(cwd, 'sub').mkdir()
        text = instr.read_text()
        end = text.rindex('END')
        if kind == 'syntax':
            instr.write_text(text[:end])
        elif kind == 'jump':
            instr.write_text('DEFINE INSTRUMENT main() TRACE COMPONENT a = Arm_x() AT (0,0,0) ABSOLUTE JUMP Nowhere ITERATE 2 END')
            Path(cwd, 'Arm_x.comp').write_text('DEFINE COMPONENT Arm_x TRACE %{ %} END')
        elif kind == 'component-syntax':
            instr.write_text('DEFINE INSTRUMENT main() TRACE COMPONENT a = Arm_x() AT (0,0,0) ABSOLUTE END')
            Path(cwd, 'Arm_x.comp').write_text(['DEFINE COMPONENT Arm_x TRACE %{ %} ', 'DEFINE COMPONENT Arm_x SETTING PARAMETERS (x=1 TRACE %{ %} END'][case['order'] % 2])
        elif kind == 'no-component':
            instr.write_text('DEFINE INSTRUMENT main() TRACE COMPONENT a = Nowhere_x() AT (0,0,0) ABSOLUTE END')
        elif kind == 'no-instrument':
            instr.unlink()
        elif kind == 'no-file-given':
            args = [a for a in args if not a.endswith('main.instr')]
        elif kind == 'option':
            args.insert(case['order'] % len(args), '--no-such-option')
        elif kind == 'no-folder':
            args[:0] = ['-I']
            args = ['main.instr', '-I'] if case['order'] % 2 else [a for a in args if a != '-I'] + ['-I']
        there = case['order'] % 2 and output.parent.is_dir()
        if there:
            output.write_text('as it was')
        what = f'{case["flavor"]}-antlr {args} ({kind}):'
        try:
            command(case['flavor'], args, cwd, case['process'])
        except Exception as e:
            rec.label(type(e).__name__)
        else:
            raise engine.Violation(f'{what} gives no error')
        if there:
            eq(output.read_text() if output.exists() else None, 'as it was', f'{what} the earlier output')
        else:
            check(not output.exists(), f'{what} there is an output')
    rec.label(kind)
    rec.nontrivial(key=[kind, case['flavor'], args[-3:]])


@sub('library', st.tuples(st.lists(st.tuples(st.sampled_from(['Guide', 'Source_simple', 'Arm', 'L_monitor']), st.sampled_from(['', 'optics', 'share/x']), st.integers(1, 15)), min_size=1,
                                   max_size=4, unique_by=lambda x: x[0]), st.integers(0, 9), st.booleans()).map(list), quick=40, thorough=400,
     rule='components of the library of the flavour, its runtime, and more of the same name in folders')
def library(case, rec):
    import hashlib
    from vlib import boot
    comps, which, trace = case
    flavor = ['mcstas', 'mcxtrace'][(which + sum(c[2] for c in comps)) % 2]
    with cgen.scratch() as d:
        env = boot.make_offline(Path(d, 'offline'))
        cache = Path(env['XDG_CACHE_HOME'], 'mccode_antlr')
        files = {n: {} for n in boot.NAMES}
        for f in cgen.RUNTIME.iterdir():
            files['libc']['share/' + f.name] = f.read_bytes()
        lib, cwd = Path(d, 'lib'), Path(d, 'work')
        lib.mkdir()
        cwd.mkdir()
        expected, lines = [], []
        for name, folder, bits in comps:
            text = lambda place: (f'DEFINE COMPONENT {name} SETTING PARAMETERS (int x=1) INITIALIZE %{{ printf("{name} of {place} %d\\n", x); %}} TRACE %{{ %}} END').encode()
            own = [p for k, p in enumerate(['mcstas', 'mcxtrace', 'lib', 'work']) if bits >> k & 1]
            if 'lib' in own and 'work' in own:
                own.remove('work')
            for p in own:
                if p in files:
                    files[p][f'{folder}/{name}.comp'.lstrip('/')] = text(p)
                else:
                    Path(d, p, f'{name}.comp').write_bytes(text(p))
            winner = next((p for p in ('lib', 'work', flavor) if p in own), None)
            if winner is None:
                rec.label('missing')
            expected.append(winner and f'{name} of {winner} 2')
            lines.append(f'COMPONENT my_{name} = {name}(x=2) AT (0,0,0) ABSOLUTE')
        for n in boot.NAMES:
            root = cache / n / 'v0.0.0'
            listing = []
            for f, data in files[n].items():
                p = root / f
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(data)
                listing.append(f'{f} {hashlib.sha256(data).hexdigest()}\n')
            (root / f'{n}-registry.txt').write_text(''.join(listing))
        Path(cwd, 'main.instr').write_text('DEFINE INSTRUMENT main() TRACE ' + '\n'.join(lines) + ' END')
        code = f'import sys; sys.path.insert(0, {str(boot.REPO / "src")!r}); from mccode_antlr.cli.commands import {flavor}; {flavor}()'
        r = subprocess.run([sys.executable, '-c', code, 'main.instr', '-I', str(lib), *(['-t'] if trace else [])], cwd=cwd, capture_output=True, text=True, timeout=120,
                           env=dict(os.environ, **env))
        what = f'{flavor} with {comps}'
        if None in expected:
            check(r.returncode and not Path(cwd, 'main.c').exists(), f'{what}: a component which is not in this library is accepted')
        else:
            if r.returncode:
                raise engine.Violation(f'{what}: {r.stderr[-1500:]}')
            out = cgen.run(cgen.compile_(Path(cwd, 'main.c').read_text(), cwd)).splitlines()
            eq([x for x in out if ' of ' in x], expected, what)
    rec.label(flavor)
    rec.nontrivial(len(comps) >= 2, key=case)
