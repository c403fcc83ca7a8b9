"""I03: saving an instrument to an HDF5 file and loading it gives an equal instrument."""
import functools
import json
import os
import re
import sys
from enum import Enum
from pathlib import Path

from hypothesis import strategies as st

from vlib import cexpr, cgen, engine, gen_comp, gen_expr, gen_flow, gen_instr, view, lib as L
from vlib.engine import check, eq
from vlib.props import a01, g01, i01

SUBS, sub = engine.registry()
RULE = ('non-trivial: (programs) three optional clauses, a component reference or a group; (many) more than ten entries; '
        '(values) at least three nested objects of different types')
ASSUMPTIONS = ['numbers of numpy types are equal to those of Python', 'the cached state of a registry is not a part of the instrument'] + i01.ASSUMPTIONS


def attributes(x):
    skip = ('pooch', '_stashed_registry', 'stashed', '_cache')
    own = {k: v for k, v in vars(x).items() if k not in skip}
    if hasattr(x, 'shape_type') and '_shape' not in own:
        own['shape_type'] = x.shape_type      # an operation without it has that of its class
    return dict(sorted(own.items()))


def dump(x, refs=None, path='', inside=None):
    """All an object says, as lists of plain values; references to component instances by what they refer to"""
    import numpy as np
    from mccode_antlr.instr import Instance
    refs = {} if refs is None else refs
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, Enum):
        return ['enum', type(x).__name__, x.name]
    if isinstance(x, (bool, np.bool_)):
        return ['bool', bool(x)]
    if isinstance(x, (int, np.integer)):
        return ['int', int(x)]
    if isinstance(x, (float, np.floating)):
        return ['float', repr(float(x))]
    if isinstance(x, Path):
        return ['path', str(x)]
    if isinstance(x, dict):
        return ['dict', *[[k, dump(v, refs, f'{path}[{k}]')] for k, v in x.items()]]
    if type(x) in (list, tuple):
        return [type(x).__name__, *[dump(v, refs, f'{path}[{k}]') for k, v in enumerate(x)]]
    if isinstance(x, tuple):
        return [type(x).__name__, *[dump(v, refs, f'{path}[{k}]') for k, v in enumerate(x)]]
    if isinstance(x, Instance):
        if id(x) in refs:
            return ['same as', refs[id(x)]]
        refs[id(x)] = path
    return [type(x).__name__, *[[k, dump(v, refs, f'{path}.{k}')] for k, v in attributes(x).items()]]


def of_instr(instr):
    """the components first, so that references are to them"""
    refs = {}
    first = dump(instr.components, refs, '.components')
    return [['components', first]] + [[k, dump(v, refs, f'.{k}')] for k, v in attributes(instr).items() if k != 'components']


def difference(got, want, path=''):
    if type(got) is not type(want):
        return f'{path}: {got!r} instead of {want!r}'
    if isinstance(got, list):
        if got[:1] != want[:1] and not (got and isinstance(got[0], list)):
            return f'{path}: {str(got)[:300]} instead of {str(want)[:300]}'
        for i, (a, b) in enumerate(zip(got, want)):
            d = difference(a, b, f'{path}/{a[0] if isinstance(a, list) and a and isinstance(a[0], str) else i}')
            if d:
                return d
        return f'{path}: {len(got) - 1} entries instead of {len(want) - 1}' if len(got) != len(want) else None
    return None if got == want else f'{path}: {got!r} instead of {want!r}'


def stored(obj, folder, name='stored.h5'):
    from mccode_antlr.io import load_hdf5, save_hdf5
    module = sys.modules.get('mccode_antlr.version')
    if module and not hasattr(module.version, 'cache_info'):      # it reads files each time
        module.version = functools.cache(module.version)
    with cgen.quiet():
        save_hdf5(obj, Path(folder) / name)
        return load_hdf5(Path(folder) / name)


def translated(instr):
    with_time = cgen.source(instr)
    return re.sub(r'(?m)^.*[Dd]ate:.*$', '', with_time)


def same_instr(got, want, what):
    d = difference(of_instr(got), want if isinstance(want, list) else of_instr(want))
    check(d is None, f'{what} has {d}')


def judge(instr, what, folder, translate):
    before, text = of_instr(instr), str(instr)
    got = stored(instr, folder)
    same_instr(instr, before, f'{what}: storing changes it, it')
    same_instr(got, before, f'{what}: what is loaded')
    eq(str(got), text, f'{what}: text of what is loaded')
    i01.check_groups(got, f'{what}: loaded')
    for name, g in got.groups.items():
        check(all(m is got.components[i] for m, i in zip(g.members, g.ids)), f'{what}: members of group {name} are not the components which were loaded')
    again = stored(got, folder)         # over the same file
    same_instr(again, before, f'{what}: what is loaded, stored and loaded')
    if translate:
        eq(translated(got), translated(instr), f'{what}: simulation source of what is loaded')
    return got


@sub('programs', st.one_of(gen_instr.program(4, includes=False), gen_instr.program(5)), quick=150, thorough=12000,
     rule='generated instrument files')
def programs(prog, rec):
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, [0])
    instrs = {k: v for k, v in files.items() if k != 'main'}
    instr = L.parse_instr(files['main'], registries=[L.memory(comps, instrs=instrs)], source='main.instr')
    with cgen.scratch() as d:
        judge(instr, f'{json.dumps(files)} with {json.dumps(comps)}', d, False)
    f = gen_instr.features(prog)
    rec.label(*sorted(f))
    rec.nontrivial(len(f & {'when', 'group', 'extend', 'jumps', 'split', 'removable', 'cpu', 'metadata', 'rot', 'copy', 'previous'}) >= 3, key=prog)


@sub('assembled', st.tuples(gen_instr.program(5, includes=False), a01.WAYS).map(list), quick=100, thorough=8000,
     rule='instruments assembled in Python')
def assembled(case, rec):
    prog, ways = case
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, [0])
    instr, w = a01.assemble(prog, ways, comps=comps)
    instr.determine_groups()
    with cgen.scratch() as d:
        judge(instr, f'{json.dumps(files)} with {json.dumps(comps)} assembled as {sorted(w.used)}', d, False)
    f = gen_instr.features(prog)
    rec.nontrivial(len(f & {'when', 'group', 'extend', 'jumps', 'split', 'removable', 'cpu', 'metadata', 'rot', 'copy', 'previous'}) >= 3, key=case)


@sub('translated', gen_flow.program(), quick=40, thorough=3000, rule='instruments with control flow: the simulation source of the loaded one is the same')
def same_source(prog, rec):
    comps = {t['name']: gen_flow.comp_text(prog, t) for t in prog['types']}
    instr = L.parse_instr(gen_flow.text(prog), comps)
    with cgen.scratch() as d:
        judge(instr, f'{gen_flow.text(prog)} with {json.dumps(comps)}', d, True)
    rec.nontrivial(len(prog['comps']) > 3, key=prog)


COUNT = st.one_of(st.integers(0, 3), st.integers(8, 13), st.sampled_from((21, 101)))
MANY = 'DEFINE COMPONENT Many SETTING PARAMETERS (double x=0, int i=1, string s="a", vector v=NULL)\nTRACE %{ %} END'


def many_text(n):
    out = ['DEFINE INSTRUMENT many(' + ', '.join(f'{("double", "int", "string")[i % 3]} p{i}={chr(34) * (i % 3 == 2)}{i}{chr(34) * (i % 3 == 2)}' for i in range(n['params'])) + ')']
    out += [f'METADATA "text/plain" m{i} %{{data {i}%}}' for i in range(n['metadata'])]
    out += [f'DECLARE %{{int d{i};%}}' for i in range(1)]
    out += ['INITIALIZE %{ init %}', 'TRACE']
    for i in range(n['comps']):
        size = n['vector'] if i == 0 else 2
        extra = f'x={i}' if i % 3 else f'x={i}*p0+{i % 7}' if n['params'] else f'i={i}'
        extra += ', v={' + ','.join(str(k) for k in range(size)) + '}' if i % 4 == 0 and size else ''
        ref = 'ABSOLUTE' if i == 0 else f'RELATIVE c{i * 7 % i}' if i % 2 else 'RELATIVE PREVIOUS'
        out.append(f'COMPONENT c{i} = Many({extra}) AT (0, {i}, 1) {ref}' + (f' GROUP g{(n["groups"] - i) % n["groups"]}' if n['groups'] else ''))
        if i == 0:
            out += [f'JUMP c0 WHEN x > {k}' for k in range(n['jumps'])]
            out += [f'METADATA "text/plain" n{k} %{{own {k}%}}' for k in range(n['metadata'])]
    return '\n'.join(out + ['END'])


@sub('many', st.fixed_dictionaries({k: COUNT for k in ('params', 'metadata', 'comps', 'vector', 'groups', 'jumps', 'blocks')}), quick=24, thorough=600,
     rule='more than ten (or a hundred) parameters, components, blocks, flags, vector elements, groups, jumps')
def many(n, rec):
    instr = L.parse_instr(many_text(n), {'Many': MANY})
    for i in range(n['blocks']):
        for f in (instr.DECLARE, instr.INITIALIZE, instr.SAVE, instr.DEPENDENCY):
            f(f'-Dblock{i} ')
        if instr.components:
            instr.components[-1].EXTEND(f'block {i}')
    with cgen.scratch() as d:
        judge(instr, many_text(n) + str(n), d, False)
    rec.label(*[k for k in n if n[k] > 10])
    rec.nontrivial(max(n.values()) > 10, key=n)


TEXTS = st.one_of(st.text(st.characters(exclude_categories=('Cs',), exclude_characters='\0'), max_size=12),
                  st.sampled_from(('', ' ', '\n', 'a\r\nb', '\\0', 'é', '\u2028', "'", '/', 'a/b', '.', '0', 'None', 'x' * 70000, '\t', 'true')))


@st.composite
def pieces(draw, depth=3):
    k = draw(st.integers(0, 11 if depth else 6))
    if k < 2:
        return ['expr', draw(gen_expr.tree(4, text=True)), draw(st.sampled_from((None, 'int', 'float', 'str'))), draw(st.sampled_from(('C', 'C', 'python')))]
    if k == 2:
        return ['number', draw(st.one_of(st.sampled_from((0, 2 ** 31, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 10 ** 20, -10 ** 30, 0.0, -0.0, 1e308, 5e-324, float('inf'))), st.integers(), st.floats(allow_nan=False)))]
    if k == 3:
        return ['text', draw(TEXTS)]
    if k == 4:
        return ['code', draw(TEXTS), draw(TEXTS), draw(st.integers(-1, 10 ** 6)), draw(st.one_of(st.none(), TEXTS))]
    if k == 5:
        return ['metadata', draw(TEXTS), draw(TEXTS), draw(TEXTS), draw(st.booleans())]
    if k == 6:
        return ['bool', draw(st.booleans())]
    if k == 7:
        return ['place', [draw(gen_expr.tree(1)) for _ in range(6)], draw(st.lists(st.integers(0, 2), max_size=1)), draw(st.booleans())]
    if k in (8, 9):
        return [('list', 'tuple')[k - 8], *draw(st.lists(pieces(depth - 1), max_size=draw(st.sampled_from((3, 12)))))]
    if k == 10:
        return ['dict', *draw(st.lists(st.tuples(st.one_of(TEXTS, st.sampled_from(('b', 'a', 'c', 'keys', 'length')))
                                                 .filter(lambda t: len(t) < 999), pieces(depth - 1)).map(list), max_size=4, unique_by=lambda p: p[0]))]
    return ['param', draw(TEXTS), draw(st.one_of(st.none(), TEXTS)), draw(gen_expr.tree(2))]


def built(s):
    from mccode_antlr.common import Expr, InstrumentParameter, MetaData
    from mccode_antlr.common.block import RawC
    from mccode_antlr.common.expression import DataType
    from mccode_antlr.instr.orientation import Angles, Orient, Vector
    text = lambda t: cexpr.render(cexpr.avoid_quirks(t))
    k = s[0]
    if k == 'expr':
        e = Expr.parse(text(s[1]))
        if s[2] is not None:
            e.data_type = DataType.from_name(s[2])
        for x in e.expr:
            if hasattr(x, 'style'):
                x.style = s[3]
        return e
    if k in ('number', 'text', 'bool'):
        return s[1]
    if k == 'code':
        return RawC(s[1], s[3], s[2], s[4])
    if k == 'metadata':
        return (MetaData.from_instrument_tokens if s[4] else MetaData.from_component_tokens)('name', s[1], s[2], s[3])
    if k == 'place':
        v = [Expr.parse(text(t)) for t in s[1]]
        o = Orient.from_dependent_orientations(None, Vector(*v[:3]), None, Angles(*v[3:]))
        for i in s[2]:
            at, rot = [Expr.float(0), Expr.float(0), Expr.float(0)], [Expr.float(0), Expr.float(0), Expr.float(0)]
            at[i], rot[(i + 1) % 3] = v[i], v[3 + i]
            o = Orient.from_dependent_orientations(o, Vector(*at), o, Angles(*rot))
        return o
    if k in ('list', 'tuple'):
        return dict(list=list, tuple=tuple)[k](built(x) for x in s[1:])
    if k == 'dict':
        return {n: built(x) for n, x in s[1:]}
    return InstrumentParameter(s[1], s[2], Expr.parse(text(s[3])))


def count(x):
    return 1 + sum(count(i) for i in x if isinstance(i, list)) if isinstance(x, list) else 0


@sub('values', pieces(), quick=400, thorough=20000, rule='expressions, placements, code, metadata, and collections of them')
def values(spec, rec):
    try:
        obj = built(spec)
    except RuntimeError as e:
        if 'by zero' in str(e):
            return
        raise
    before = dump(obj)
    with cgen.scratch() as d:
        got = stored(obj, d)
    diff = difference(dump(obj), before)
    check(diff is None, f'storing {spec} changes it: {diff}')
    diff = difference(dump(got), before)
    check(diff is None, f'{spec} stored and loaded has {diff}')
    rec.label(spec[0])
    rec.nontrivial(count(before) > 3, key=spec)


@st.composite
def attached(draw):
    regs = draw(g01.registries(high=4))
    for r in regs:
        r['path'] = draw(st.booleans())
    return {'regs': regs, 'github': draw(st.sampled_from((None, None, 'v1.2', 'main'))), 'priority': draw(st.sampled_from((0, 7)))}


@sub('registries', attached(), quick=80, thorough=3000, rule='the registries of a loaded instrument find the same files')
def registries(case, rec):
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import GitHubRegistry
    with cgen.scratch() as d, g01.World(case['regs'], d, rename=False) as world:
        objects = list(world.objects)
        files = [f for s in world.specs for f in s['files']]
        if case['github']:
            g01.World.count += 1
            with cgen.quiet():
                objects.append(GitHubRegistry(f'verif-g01-{os.getpid()}-{g01.World.count}', 'https://localhost.invalid/g', case['github'],
                                              registry={'git/x.comp': 'sha256:00'}, priority=case['priority']))
            root = Path(objects[-1].pooch.abspath)
            world.caches.append(root if case['github'].startswith('v') else root / case['github'])      # its parent is removed
            (root / 'git').mkdir(parents=True, exist_ok=True)
        instr = L.parse_instr('DEFINE INSTRUMENT reg() TRACE END', registries=objects)
        what = f'registries {case}'
        got = stored(instr, d)
        eq([type(r).__name__ for r in got.registries], [type(r).__name__ for r in instr.registries], f'{what}: loaded')
        for a, b in zip(got.registries, instr.registries):
            x, y = attributes(a), attributes(b)
            eq({k: str(v) for k, v in x.items()}, {k: str(v) for k, v in y.items()}, f'{what}: loaded {b.name}')
            eq(sorted(a.filenames()), sorted(b.filenames()), f'{what}: files of loaded {b.name}')
            check(a == b or a.pooch is None, f'{what}: {b.name} is not equal to what is loaded')

        def text(regs, f):
            try:
                with cgen.quiet():
                    return Reader(registries=list(regs)).contents(f, strict=True)
            except Exception as e:
                return type(e).__name__
        for f in dict.fromkeys(files):
            eq(text(got.registries, f), text(instr.registries, f), f'{what}: text of {f} for what is loaded')
    rec.label(*{s['kind'] for s in case['regs']}, *(['github'] if case['github'] else []))
    rec.nontrivial(len(objects) > 1, key=case)
