"""T03: translation is deterministic and leaves the instrument unchanged."""
import hashlib
import json
import os
import re
import subprocess
import sys
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, gen_flow, gen_instr, gen_values, lib as L, view
from vlib.engine import check, eq
from vlib.props import i01

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least two translations of an instrument which uses dependency flags, or two component types or more, with another operation between'
ASSUMPTIONS = ['the line with the date of creation differs, as intended']
OPS = ['mcstas', 'mcxtrace', 'options', 'text', 'html', 'flags', 'save', 'other']


def undated(source):
    return re.sub(r'^(\s*\* Date:).*$', r'\1', source, flags=re.M)


def build(case):
    """main instrument text, component texts, file texts"""
    kind, prog, flags = case
    if kind == 'flow':
        return gen_flow.text(prog), {t['name']: depend(gen_flow.comp_text(prog, t), flags[n::2]) for n, t in enumerate(prog['types'])}, {}
    if kind == 'values':
        prog = gen_values.clean(prog)
        return gen_values.text(prog), {t['name']: depend(gen_values.comp_text(t), flags[n::2]) for n, t in enumerate(prog['types'])}, {}
    comps, files, _ = i01.build(prog, [0])
    main = files.pop('main')
    return main, comps, {k: v for k, v in files.items()}


def depend(text, flags):
    """the component with a dependency"""
    lines = text.split('\n')
    k = max(n for n, line in enumerate(lines) if line.startswith(('DEFINE ', 'DEFINITION ', 'SETTING '))) + 1
    return '\n'.join(lines[:k] + [f'DEPENDENCY "{" ".join(flags)}"'] * bool(flags) + lines[k:])


def parse(built, like=None):
    main, comps, files = built
    registries = like.registries if like is not None else [cgen.registry(), L.memory(comps, instrs=files)]
    return L.parse_instr(main, registries=list(registries), source='main.instr')


def translate(instr, mcstas, other=False):
    conf = dict(embed_instrument_file=False, verbose=False, enable_trace=False, portable=False, default_main=False) if other else {}
    with cgen.quiet():
        return undated(cgen.visitor(instr, mcstas, **conf).contents())


def of_comp(c):
    out = [c.name, c.category, c.dependency, c.acc]
    out += [[p.name, repr(p.value)] for s in (c.define, c.setting, c.output) for p in s]
    out += [view.of_meta(m) for m in c.metadata]
    return out + [[view.of_block(b) for b in s] for s in (c.share, c.user, c.declare, c.initialize, c.trace, c.save, c.final, c.display)]


def picture(instr):
    """All an instrument says, as text and plain data"""
    with cgen.quiet():
        text = str(instr)
    comps = [of_comp(c) for c in instr.component_types()]
    values = [[repr(p.value) for p in i.parameters] for i in instr.components]
    return dict(text=text, view=view.of_instr(instr), comps=comps, values=values, registries=[r.name for r in instr.registries],
                flags=list(instr.flags), jumps=[[j.target, j.relative_target] for i in instr.components for j in i.jump])


def apply(op, instr, others, folder):
    with cgen.quiet():
        if op in ('mcstas', 'mcxtrace'):
            return translate(instr, op == 'mcstas')
        if op == 'options':
            return translate(instr, True, True)
        if op == 'text':
            return str(instr)
        if op == 'html':
            instr._my_repr_html_()  # (has random identifiers)
            return None
        if op == 'flags':
            return sorted(instr.decoded_flags())
        if op == 'save':
            from mccode_antlr.io import save_hdf5
            save_hdf5(instr, Path(folder, 'saved.h5'))
            Path(folder, 'saved.h5').unlink()
        if op == 'other':
            translate(parse(others), True)


flags = st.lists(st.sampled_from(['-lm', '-lfoo', '-DX=1', '@NEXUSFLAGS@', '@GSLFLAGS@', '-Wl,-rpath,/x', '-I.', '-DFUNNEL']), max_size=6)
programs = st.one_of(st.tuples(st.just('flow'), gen_flow.program(), flags), st.tuples(st.just('values'), gen_values.program(), flags),
                     st.tuples(st.just('any'), gen_instr.program(4, includes=True), st.just([]))).map(list)


def translatable(built):
    try:
        translate(parse(built), True)
        return True
    except Exception:
        return False


@sub('history', st.tuples(programs, programs, st.lists(st.sampled_from(OPS), min_size=2, max_size=6)).map(list), quick=150, thorough=6000,
     rule='histories of printing, saving and translating in different ways')
def history(case, rec):
    prog, other, ops = case
    if prog[0] == 'any' and i01.zero(prog[1]) or other[0] == 'any' and i01.zero(other[1]):
        return
    built, others = build(prog), build(other)
    if not translatable(built):
        rec.label('untranslatable')
        return
    if 'other' in ops and not translatable(others):
        ops = [o for o in ops if o != 'other']
    instr = parse(built)
    before = picture(instr)
    first = {}
    with cgen.scratch() as d:
        for k, op in enumerate(ops):
            got = apply(op, instr, others, d)
            what = f'{built[0]} with {json.dumps(built[1])}: {op} after {ops[:k]}'
            if op not in first:
                fresh = apply(op, parse(built), others, d) if op not in ('other', 'save') else got
                differ(got, fresh, f'{what} differs from {op} at once')
                first[op] = got
            differ(got, first[op], f'{what} differs from the first')
            now = picture(instr)
            for key in before:
                if now[key] != before[key]:
                    differ(json.dumps(now[key], indent=0), json.dumps(before[key], indent=0), f'{what} changed the instrument ({key})')
            check(instr == parse(built, instr), f'{what} makes the instrument different from a fresh one')
    rec.label(prog[0], *ops)
    rec.nontrivial(sum(o in ('mcstas', 'mcxtrace', 'options') for o in ops) >= 2 and len(set(ops)) > 1 and (instr.flags or len(instr.component_types()) > 1), key=case)


def differ(got, want, what):
    if got == want:
        return
    a, b = str(got).splitlines(), str(want).splitlines()
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            raise engine.Violation(f'{what}: line {n + 1} is {x!r}, not {y!r}')
    raise engine.Violation(f'{what}: {len(a)} lines, not {len(b)}')


CHILD = '''
import json, sys
sys.path.insert(0, sys.argv[1])
from vlib import boot
boot.setup_paths()
from vlib.props import t03
t03.child()
'''


def child():
    cases = json.load(sys.stdin)
    out = []
    for built in cases:
        try:
            instr = parse(built)
            with cgen.quiet():
                flags = list(instr.decoded_flags())
            sources = [translate(instr, True), translate(instr, False), flags, str(instr)]
        except Exception as e:
            sources = [f'{type(e).__name__}']
        out.append(sources)
    json.dump(out, sys.stdout)


def in_process(cases, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([sys.executable, '-c', CHILD, str(Path(__file__).resolve().parents[2])], input=json.dumps(cases), capture_output=True, text=True, env=env, timeout=300)
    if r.returncode:
        raise engine.HarnessError(r.stderr[-2000:])
    return json.loads(r.stdout[r.stdout.index('[['):])


@sub('processes', st.tuples(st.lists(programs, min_size=3, max_size=6), st.integers(1, 4000000)).map(list), quick=24, thorough=800,
     rule='several instruments in two processes with different hash seeds and opposite order')
def processes(case, rec):
    progs, seed = case
    cases = [build(p) for p in progs if not (p[0] == 'any' and i01.zero(p[1]))]
    if not cases:
        return
    a = in_process(cases, 0)
    b = in_process(cases[::-1], seed)[::-1]
    for built, x, y in zip(cases, a, b):
        what = f'{built[0]} with {json.dumps(built[1])}: in a process with hash seed {seed}'
        eq(len(x), len(y), what)
        for name, p, q in zip(('McStas source', 'McXtrace source', 'flags', 'text'), x, y):
            differ(q, p, f'{what} the {name} differs')
    rec.label(*(p[0] for p in progs))
    rec.label('flags' if any(len(x) > 1 and len(x[2]) > 1 for x in a) else 'no-flags')
    rec.nontrivial(sum(len(x) > 1 for x in a) > 1, key=case)
