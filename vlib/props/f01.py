"""F01: dependency flags are decoded exactly and all of them reach the compiler."""
import os
import shlex
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: a dependency with at least two keywords, or an instrument with at least two dependencies'
ASSUMPTIONS = ['keywords are a name and an argument without parentheses; their values contain no further CMD( or GETPATH(',
               'the words of a dependency are separated as a shell does, and the path of GETPATH is never more than one of them',
               'the compiler is a program which records its arguments; on Linux only',
               'flags of a component type of which all instances were REMOVABLE and are left out may be present or not']

TEXTS = ['-lfoo', '-DX=1', '-I', '-L', '-DENVIRONMENT=1', '-DCMDLINE', '-DGETPATHS=2', '-DENV=2', 'ENV', '-DUSE_CMD', '-Wl,-rpath,', 'a.c', '-O3', '-DP=\\"q\\"', '-D%d',
         '/opt/x', '-DA=(1)', '--x=', '-framework', "-DC='c d'", '-DMY_FLAGS']
ALONE = ['user@host', '@', '@@', 'a@b@c.d', '@FOO@']
VALUES = ['', 'value', '/opt/dir', '-la -lb', 'C:\\new\\1', '\\g<0>', '@GSLFLAGS@', ' -lx ', 'ENV', '-I/a/b -DENV', 'é']
ENVS = ['VERIF_A', 'VERIF_B', 'VERIF_UNSET', 'VERIF_W']
FLAGS = ['-lgsl -lgslcblas', '-lx', '', '-I\\opt\\new', '-D\\g<0>', '-D\\1', '-DUSE_X -lX', '-DN=\\n']
KEYS = ['GSLFLAGS', 'NEXUSFLAGS', 'XrlFlags', 'gslflags', 'VERIFFLAGS', 'VERIF_XFLAGS', 'OTHERFLAGS', 'FOO', 'MCCODE_LIB']
FILES = ['one.h', 'sub/two.h', 'sub folder/three.h', "it's.h"]
COMMANDS = [['echo word', 'word'], ['printf %s -lfoo', '-lfoo'], ['echo a  b', 'a b'], ['true', ''], ["printf '\\n  a b \\n\\n'", 'a b'], ['echo ENV(VERIF_W)x', None], ['echo -I/x -L/y', '-I/x -L/y'],
            ["echo 'a\\\\1'", None], ['expr 1 + 1', '2']]
WRONG = ['CMD(false)', "CMD(printf 'a\\nb\\n')", 'ENV(VERIF_A', '-la CMD(echo x']


@st.composite
def piece(draw):
    k = draw(st.sampled_from(('text', 'text', 'env', 'path', 'cmd', 'key')))
    if k == 'cmd':
        return [k, draw(st.integers(0, len(COMMANDS) - 1))]
    return [k, draw(st.sampled_from({'text': TEXTS, 'env': ENVS, 'path': FILES, 'key': KEYS}[k]))]


@st.composite
def dependency(draw, high=4):
    """Words, each of some pieces, and the white space between them"""
    out = []
    for _ in range(draw(st.integers(1, high))):
        word = [['text', draw(st.sampled_from(ALONE))]] if draw(st.integers(0, 9)) == 9 else draw(st.lists(piece(), min_size=1, max_size=3))
        out.append([draw(st.sampled_from((' ', ' ', ' ', '  ', ''))) if not out else draw(st.sampled_from((' ', ' ', '  '))), word])
    return out


@st.composite
def surroundings(draw):
    return {'env': {n: draw(st.sampled_from(VALUES)) for n in ENVS[:2]}, 'config': {k: draw(st.sampled_from(FLAGS)) for k in ('gsl', 'nexus', 'xrl', 'verif', 'verif_x')}}


def text_of(dep):
    def one(k, v):
        return {'text': lambda: v, 'env': lambda: f'ENV({v})', 'path': lambda: f'GETPATH({v})', 'cmd': lambda: f'CMD({COMMANDS[v][0]})', 'key': lambda: f'@{v}@'}[k]()
    return ''.join(space + ''.join(one(k, v) for k, v in word) for space, word in dep)


class World:
    """An environment, a configuration, and a folder with files"""

    def __init__(self, case):
        self.case = case

    def __enter__(self):
        from mccode_antlr.config import config
        from mccode_antlr.reader.registry import LocalRegistry
        self.scratch = cgen.scratch()
        self.root = Path(self.scratch.__enter__())
        self.folder = self.root / 'files'
        for f in FILES:
            (self.folder / f).parent.mkdir(parents=True, exist_ok=True)
            (self.folder / f).write_text('')
        config['flags'].get()
        self.config, self.sources = config, list(config.sources)
        config.set({'flags': dict(self.case['config'])})
        self.environ = dict(os.environ)
        os.environ.pop('VERIF_UNSET', None)
        os.environ.update(self.case['env'], VERIF_W='w')
        self.registry = LocalRegistry('files', str(self.folder))
        return self

    def __exit__(self, *a):
        self.config.sources[:] = self.sources
        for k in set(os.environ) - set(self.environ):
            del os.environ[k]
        os.environ.update(self.environ)
        self.scratch.__exit__(*a)

    def value(self, k, v, quote):
        if k == 'text':
            return v
        if k == 'env':
            return {'VERIF_UNSET': '', 'VERIF_W': 'w'}.get(v, self.case['env'].get(v, ''))
        if k == 'path':
            p = (self.folder / v).resolve().as_posix()
            return shlex.quote(p) if quote else p
        if k == 'cmd':
            command, out = COMMANDS[v]
            return out if out is not None else 'wx' if 'ENV' in command else self.echoed
        n = v.lower()[:-5]
        return {'FOO': '@FOO@', 'MCCODE_LIB': '.'}.get(v) or self.case['config'].get(n, f'-l{n}')

    @property
    def echoed(self):
        import subprocess
        return subprocess.run("echo 'a\\\\1'", shell=True, capture_output=True, text=True).stdout.strip()

    def decoded(self, dep, quote=True):
        return ''.join(space + ''.join(self.value(k, v, quote) for k, v in word) for space, word in dep)


def keywords(dep):
    return sum(k != 'text' for _, w in dep for k, v in w)


def names(dep):
    return {v if k == 'path' else k for _, w in dep for k, v in w}


@sub('decode', st.tuples(dependency(), surroundings()).map(list), quick=2000, thorough=30000, rule='a dependency is decoded')
def decode(case, rec):
    dep, around = case
    text = text_of(dep)
    with World(around) as w:
        instr = L.parse_instr(f'DEFINE INSTRUMENT t() DEPENDENCY "{text}" TRACE END', registries=[L.memory({}), w.registry])
        eq(list(instr.flags), [text], 'flags of the instrument')
        with cgen.quiet():
            got = instr.decoded_flags()
        eq(len(got), 1, f'number of flags of {text!r}: {got}')
        what = f'{text!r} with {around}'
        if not {"it's.h", 'sub folder/three.h'} & names(dep):
            eq(got[0], w.decoded(dep), what)
        else:
            check(got[0] in (w.decoded(dep, True), w.decoded(dep, False)), f'{what} is {got[0]!r} instead of {w.decoded(dep)!r}')
        eq(list(instr.flags), [text], f'flags after decoding {what}')
    rec.label(*{k for _, word in dep for k, _ in word})
    rec.nontrivial(keywords(dep) > 1, key=case)


@sub('wrong', st.tuples(st.sampled_from(WRONG), st.sampled_from(('', '-la ', 'ENV(VERIF_A) ')), surroundings()).map(list), quick=24, thorough=48, rule='what can not be decoded is refused')
def wrong(case, rec):
    bad, before, around = case
    with World(around) as w:
        instr = L.parse_instr(f'DEFINE INSTRUMENT t() DEPENDENCY "{before}{bad}" TRACE END', registries=[L.memory({}), w.registry])
        try:
            with cgen.quiet():
                got = instr.decoded_flags()
        except (RuntimeError, ValueError):
            rec.nontrivial(True, key=case)
            return
        check(False, f'{before + bad!r} is decoded as {got}')


# ---------------------------------------------------------------- collected from the parts of an instrument
WORDS = ['-la', '-lb', '-lc', '-la -lb', '-DX', ' -la', '-Ienv', '@GSLFLAGS@', 'CMD(echo x)']
TYPES = 'ABCDE'


@st.composite
def instrument(draw, name, types, depth, includes=()):
    items = []
    for i in range(draw(st.integers(0, 4))):
        items.append(['comp', draw(st.sampled_from(types)), draw(st.integers(0, 3)) == 3, draw(st.integers(0, 7)) == 7])
    for n in includes:
        if draw(st.booleans()):
            items.insert(draw(st.integers(0, len(items))), ['include', n])
    return {'name': name, 'flags': draw(st.sampled_from([None, None, *WORDS])), 'items': items}


@st.composite
def collection(draw):
    types = {}
    for i, t in enumerate(TYPES[:draw(st.integers(1, 5))]):
        types[t] = {'flags': draw(st.sampled_from([None, None, *WORDS])), 'copy': draw(st.sampled_from([None, None, *TYPES[:i]])) if i else None}
    instruments, done = [], []
    for i in range(draw(st.integers(1, 4))):
        instruments.append(draw(instrument(f'i{i}', list(types), 0, done[-2:])))
        done.append(f'i{i}')
    reads = draw(st.lists(st.sampled_from(done), min_size=1, max_size=4))
    return {'types': types, 'instruments': instruments, 'reads': reads, 'way': draw(st.sampled_from(('reader', 'loader', 'assembler')))}


def comp_text(n, t):
    return f'DEFINE COMPONENT {n}' + (f' COPY {t["copy"]}' if t['copy'] else '') + (f' DEPENDENCY "{t["flags"]}"' if t['flags'] is not None else '') + (' ' if t['copy'] else ' TRACE %{ %} ') + 'END'


def instr_text(x):
    out = [f'DEFINE INSTRUMENT {x["name"]}()']
    if x['flags'] is not None:
        out.append(f'DEPENDENCY "{x["flags"]}"')
    out.append('TRACE')
    for i, item in enumerate(x['items']):
        if item[0] == 'include':
            out.append(f'%include "{item[1]}"')
        else:
            _, t, removable, cpu = item
            out.append(('REMOVABLE ' if removable else '') + ('CPU ' if cpu else '') + f'COMPONENT {x["name"]}_{i} = {t}() AT (0,0,0) ABSOLUTE')
    return '\n'.join(out + ['END'])


def expected(case, name, top=True):
    """(flags which are needed, flags which can be present)"""
    by_name = {x['name']: x for x in case['instruments']}
    x = by_name[name]
    low = set() if x['flags'] is None else {x['flags']}
    high = set(low)
    for item in x['items']:
        if item[0] == 'include':
            a, b = expected(case, item[1], False)
            low |= a
            high |= b
            continue
        _, t, removable, cpu = item
        flags = set()
        while t:
            if case['types'][t]['flags'] is not None:
                flags.add(case['types'][t]['flags'])
            t = case['types'][t]['copy']
        if cpu:
            flags.add('-DFUNNEL')
        if removable and not top:
            flags.discard('-DFUNNEL')
        high |= flags
        if top or not removable:
            low |= flags
    return low, high


def repeated(case, name, count=0):
    """whether an instrument is included more than once, which gives several components one name"""
    by_name = {x['name']: x for x in case['instruments']}
    seen = []

    def walk(n):
        seen.append(n)
        for item in by_name[n]['items']:
            if item[0] == 'include':
                walk(item[1])
    walk(name)
    return len(seen) != len(set(seen))


@sub('collect', collection(), quick=1200, thorough=20000, rule='flags of components, copied definitions, and included instruments')
def collect(case, rec):
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader import Reader
    reads = [n for n in case['reads'] if not repeated(case, n)]
    if not reads:
        return
    instruments = {x['name']: x for x in case['instruments']}
    registry = L.memory({n: comp_text(n, t) for n, t in case['types'].items()}, instrs={n: instr_text(x) for n, x in instruments.items()})
    reader = Reader(registries=[registry])
    many = 0
    for k, name in enumerate(reads):
        x = instruments[name]
        what = f'{case["way"]} of {reads[:k + 1]}: {instr_text(x)} with ' + ', '.join(comp_text(n, t) for n, t in case['types'].items())
        with cgen.quiet():
            if case['way'] == 'loader':
                instr = parse_mccode_instr(instr_text(x), [registry])
            elif case['way'] == 'assembler' and all(i[0] == 'comp' for i in x['items']):
                a = L.assembler({n: comp_text(n, t) for n, t in case['types'].items()}, name)
                if x['flags'] is not None:
                    a.instrument.DEPENDENCY(x['flags'])
                for i, (_, t, removable, cpu) in enumerate(x['items']):
                    a.component(f'c{i}', t, at=(0, 0, 0), removable=removable, cpu=cpu)
                instr = a.instrument
            else:
                instr = reader.get_instrument(name)
        low, high = expected(case, name)
        got = list(instr.unique_flags)
        eq(len(got), len(set(got)), f'repeated flags {got} of {what}')
        check(low <= set(got), f'flags {sorted(low - set(got))} are missing from {what}')
        check(set(got) <= high, f'flags {sorted(set(got) - high)} do not belong to {what}')
        many = max(many, len(low))
        with cgen.quiet():
            eq(len(instr.decoded_flags()), len(got), f'decoded flags of {what}')
    rec.label(case['way'], 'again' if len(reads) > 1 else 'once')
    rec.nontrivial(many > 1, key=case)


# ---------------------------------------------------------------- to the compiler
COMPILER = '''#include <stdio.h>
#include <string.h>
int main(int argc, char **argv) {
  char path[8192], buffer[4096];
  snprintf(path, sizeof path, "%s.log", argv[0]);
  FILE *f = fopen(path, "a");
  const char *out = 0;
  for (int i = 0; i < argc; i++) {
    for (char *s = argv[i]; *s; s++) fprintf(f, "%02x", (unsigned char) *s);
    fprintf(f, " ");
    if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[i + 1];
  }
  fprintf(f, "\\n");
  fclose(f);
  long n = 0;
  while (!feof(stdin)) n += fread(buffer, 1, sizeof buffer, stdin);
  if (out && n) { f = fopen(out, "w"); if (f) { fprintf(f, "%ld", n); fclose(f); } }
  return out && n ? 0 : 1;
}
'''
FAKE = {}
COMPS = {'A': 'DEFINE COMPONENT A DEPENDENCY "-lfromA -DA" TRACE %{ %} END', 'B': 'DEFINE COMPONENT B DEPENDENCY "@GSLFLAGS@ -lB" TRACE %{ %} END', 'C': 'DEFINE COMPONENT C TRACE %{ %} END'}


@st.composite
def compiling(draw):
    return {'dep': draw(dependency(6)), 'around': draw(surroundings()), 'types': draw(st.lists(st.sampled_from('ABC'), max_size=3)), 'cpu': draw(st.integers(0, 3)) == 3,
            'mpi': draw(st.integers(0, 3)) == 3, 'acc': draw(st.integers(0, 3)) == 3, 'nexus': draw(st.integers(0, 3)) == 3,
            'cc': draw(st.sampled_from(('-g -O2', '', '-std=c99 -x c', '-DOPENACC'))), 'ld': draw(st.sampled_from(('-lm', '', '-lm -lz'))), 'out': draw(st.sampled_from(('t.out', 'a b', None, 'x/t')))}


@sub('compile', compiling(), quick=500, thorough=6000, rule='arguments of the compiler')
def compile_(case, rec):
    from mccode_antlr.compiler import c, check as compiler_check
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    compiler_check.simple_instr_compiles = lambda which: True   # it needs files from the network
    if 'exe' not in FAKE:
        with cgen.scratch() as d:
            FAKE['exe'] = Path(cgen.compile_(COMPILER, d)).read_bytes()
    text = text_of(case['dep'])
    comps = ''.join(f'{"CPU " if case["cpu"] and i == 0 else ""}COMPONENT c{i} = {t}() AT (0,0,0) ABSOLUTE\n' for i, t in enumerate(case['types']))
    with World(case['around']) as w:
        (w.root / 'bin').mkdir()
        (w.root / 'x').mkdir()
        for n in ('cc', 'mpicc', 'acc'):
            (w.root / 'bin' / n).write_bytes(FAKE['exe'])
            (w.root / 'bin' / n).chmod(0o755)
        b = w.root / 'bin'
        flags = {'cc': case['cc'], 'acc': '-acc -DOPENACC', 'ld': case['ld'], 'mpi': '-DUSE_MPI -lmpi'}
        w.config.set({'cc': str(b / 'cc'), 'acc': str(b / 'acc'), 'mpi': {'cc': str(b / 'mpicc')}, 'flags': flags})
        instr = L.parse_instr(f'DEFINE INSTRUMENT t() DEPENDENCY "{text}" TRACE\n{comps}END', registries=[L.memory(COMPS), w.registry, cgen.registry()])
        out = w.root if case['out'] is None else w.root / case['out']
        with cgen.quiet():
            got = c.compile_instrument(instr, c.CBinaryTarget(mpi=case['mpi'], acc=case['acc'], count=1, nexus=case['nexus']), out,
                                       generator=MCSTAS_GENERATOR, config=dict(default_main=True, enable_trace=False, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False))
        what = f'{text!r} with {case}'
        check(got.exists(), f'{what}: no {got}')
        which = 'acc' if case['acc'] else 'mpicc' if case['mpi'] else 'cc'
        logs = sorted(p.name for p in b.glob('*.log'))
        eq(logs, [f'{which}.log'], f'{what}: compilers which are run')
        runs = [[bytes.fromhex(x).decode() for x in l.split(' ')[:-1]] for l in (b / f'{which}.log').read_text().split('\n')[:-1]]
        eq(len(runs), 1, f'{what}: number of compilations')
        args = runs[0][1:]
        before = flags['acc' if case['acc'] else 'cc'].split() + (flags['mpi'].split() if case['mpi'] else []) + (case['around']['config']['nexus'].split() if case['nexus'] else [])
        first = args.index('-o')
        eq([a for a in args[:first] if a != '-D__GNUC__'], before, f'{what}: arguments before the output')
        eq(args[first + 1:first + 3], [str(got), '-'], f'{what}: output and input')
        rest = args[first + 3:]
        ld = case['ld'].split()
        eq(rest[:len(ld)], ld, f'{what}: linker flags')
        rest = rest[len(ld):]
        # the words of each dependency stay together, in their order
        gsl = case['around']['config']['gsl']
        deps = {text: shlex.split(w.decoded(case['dep']))}
        if 'A' in case['types']:
            deps['A'] = ['-lfromA', '-DA']
        if 'B' in case['types']:
            deps['B'] = shlex.split(gsl + ' -lB')
        if case['cpu'] and case['types']:
            deps['cpu'] = ['-DFUNNEL']

        def fits(rest, left):
            return not rest and not any(left) or any(rest[:len(x)] == x and fits(rest[len(x):], left[:i] + left[i + 1:]) for i, x in enumerate(left) if x)
        check(fits(rest, list(deps.values())), f'{what}: the arguments {rest} are not {list(deps.values())}')
    rec.label(which, 'nexus' if case['nexus'] else 'plain')
    rec.nontrivial(keywords(case['dep']) > 1 or len(set(case['types'])) > 1, key=case)
