"""T02: parameter values, declared variables and positions reach the generated simulation."""
import math

from hypothesis import strategies as st

from vlib import cgen, engine, gen_values, lib as L
from vlib.engine import check, eq
from vlib.props.a01 import WAYS

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least one parameter comes from an expression of instrument parameters or variables, a string or an array, and at least two components'
ASSUMPTIONS = ['the C runtime is a small stand-in for the McCode one, written for observation',
               'expressions have a finite value at the values of the run', 'instrument variables are set in INITIALIZE']
VECTORS = ('vector', 'doublep', 'intp')


def number(v):
    return f'{v:.17g}'


def close(a, b):
    try:
        a, b = float(a), float(b)
    except ValueError:
        return False
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def shown(kind, v):
    if kind in ('string', 'charp'):
        return f'[{v}]'
    if kind in VECTORS:
        return 'NULL' if v is None else ''.join(f'{number(x)},' for x in v)
    return str(v) if kind == 'int' else number(v)


def same(kind, got, want):
    """got: text, want: value"""
    if kind in VECTORS and want is not None:
        g = got.split(',')
        return len(g) == len(want) + 1 and all(close(a, b) for a, b in zip(g, want))
    if kind in ('bare', 'double'):
        return close(got, want)
    return got == shown(kind, want)


def run(prog, rec, ways=None, flags=()):
    prog = gen_values.clean(prog)
    m = gen_values.Model(prog)
    comps = {t['name']: gen_values.comp_text(t) for t in prog['types']}
    text = gen_values.text(prog)
    instr, used = (L.parse_instr(text, comps), None) if ways is None else assemble(prog, comps, ways)
    args = [f'{k}={v}' for k, v in prog['values'].items()] + ['-n2', '-p'] + ([] if flags else ['-t'])
    out = cgen.simulate(instr, args, True, list(flags))
    what = '\n'.join(comps.values()) + f'{text}{f" assembled as {sorted(used)}" if used else ""} with {args}:'
    lines = out.splitlines()
    bad = [l for l in lines if l.startswith('@bad')]
    eq(bad, [], f'{what} unreadable parameter table')
    table(prog, lines, what)
    got = {}
    for l in lines:
        w = l.split(' ', 3)
        if w[0] in ('init', 'trace', 'save', 'finally') and len(w) >= 3:
            got.setdefault((w[0], w[1], w[2]), []).append((w + [''])[3])
    want = set()
    for p in prog['params']:
        for where in ('init', 'save', 'finally'):
            v = m.env[p['name']]
            kind = p['kind'] if not isinstance(v, int) else 'int'
            if where == 'init' and p['kind'] not in ('string', 'charp'):
                kind = p['kind']
            key = (where, 'instrument', p['name'])
            want.add(key)
            check(got.get(key) and same(kind, got[key][0], v if v is not None else ''),
                  f'{what} instrument parameter {p["name"]} is {got.get(key)} in {where}, expected {v!r}')
    for i, c in enumerate(prog['comps']):
        n = gen_values.own_name(prog, i)
        for where in ('init', 'trace', 'save', 'finally'):
            for name, kind, v in m.parameters(i):
                key = (where, n, name)
                want.add(key)
                for g in got.get(key, [None]):
                    check(g is not None and same(kind, g, v), f'{what} {where} of {n}: {name} is {g}, expected {shown(kind, v)}')
            for d in prog['types'][c['type']]['declare']:
                key = (where, n, d)
                want.add(key)
                counts = {'init': [0], 'trace': [1, 2], 'save': [2], 'finally': [2]}[where]
                value = [gen_values.DECLARES[d][3](i + 1, k) if d != 'own' else n for k in counts]
                eq(got.get(key), value, f'{what} {where} of {n}: {d}')
    eq(sorted(set(got) - want), [], f'{what} unexpected values')
    for l in lines:
        if l.startswith('index '):
            i = int(l.split()[1][1:])
            eq(l, f'index c{i} {i + 1} 1', what)
    places(prog, m, lines, what)
    nexus(prog, m, [l for l in lines if l.startswith('@nexus')], flags, what)
    used = [v for c in prog['comps'] for v in c['given'].values()]
    names = [p['name'] for p in prog['params']] + gen_values.GLOBALS
    for c in prog['comps']:
        for p in prog['types'][c['type']]['params']:
            v = c['given'].get(p['name'])
            rec.label(f'{p["kind"]}-' + ('default' if v is None else 'list' if isinstance(v, list) else 'text' if v.startswith('"') else 'identifier' if v.isidentifier() else 'expression'))
    rec.nontrivial(len(prog['comps']) > 1 and any(isinstance(v, list) or v.startswith('"') or any(n in v for n in names) for v in used), key=[text, prog['values']])


def table(prog, lines, what):
    rows = [l.split(' ') for l in lines if l.startswith('@par ')]
    eq([r[1] for r in rows], [p['name'] for p in prog['params']], f'{what} parameter table')
    for r, p in zip(rows, prog['params']):
        eq(int(r[2]), dict(int=0, bare=1, double=1, string=2, charp=2)[p['kind']], f'{what} type of {p["name"]} in the parameter table')
        text = bytes.fromhex(r[3][1:]).decode()
        unit = bytes.fromhex(r[4][1:]).decode()
        eq(unit, p['unit'] or '', f'{what} unit of {p["name"]} in the parameter table')
        if p['default'] is None:
            eq(text, '', f'{what} default of {p["name"]} in the parameter table')
        elif p['kind'] in ('string', 'charp'):
            if p['default'] != 'NULL':
                eq(text, gen_values.unescaped(p['default'][1:-1]), f'{what} default of {p["name"]} in the parameter table')
        else:
            v = gen_values.Model(dict(prog, values={}, change=None, params=[p])).env[p['name']]
            check(close(text, v), f'{what} default of {p["name"]} in the parameter table is {text!r}, expected {v}')


def places(prog, m, lines, what):
    want = m.places()
    got = [l.split(' ') for l in lines if l.startswith('@placed ')]
    eq([g[1] for g in got], [f'c{i}' for i in range(len(want))], f'{what} placed')
    index = {l.split()[1]: [float(v) for v in l.split()[2:]] for l in lines if l.startswith('position ')}
    for g, (position, rotation) in zip(got, want):
        v = [float(x) for x in g[2:]]
        scale = max(1, *map(abs, position))
        flat = [x for row in rotation for x in row]
        check(all(abs(a - b) <= 1e-6 * scale for a, b in zip(v[:3], position)), f'{what} {g[1]} is at {v[:3]}, expected {list(position)}')
        check(all(abs(a - b) <= 1e-6 for a, b in zip(v[3:], flat)), f'{what} the rotation of {g[1]} is {v[3:]}, expected {flat}')
        check(all(abs(a - b) <= 1e-6 * scale for a, b in zip(index[g[1]], position)), f'{what} {g[1]} is listed at {index[g[1]]}, expected {list(position)}')
    for l in lines:
        if l.startswith('distance '):
            i, j = map(int, l.split()[1:3])
            d = m.distance(i, j)
            scale = max([1, *[abs(x) for k in (i, j) for x in want[k][0]]])
            check(all(abs(float(x) - d) <= 1e-6 * scale for x in l.split()[3:]), f'{what} getdistance and index_getdistance of c{i} and c{j} are {l.split()[3:]}, expected {d}')
    eq(sum(l.startswith('distance ') for l in lines), len(want) ** 2, f'{what} distances')


def nexus(prog, m, lines, flags, what):
    got = {}
    for l in lines:
        w = l.split(' ', 3)
        got.setdefault(w[1], []).append(w[2:])
    want = []
    for i, c in enumerate(prog['comps'] if flags else []):
        group = f'{i:04d}_{gen_values.own_name(prog, i)}'
        t = prog['types'][c['type']]
        ps = {p['name']: p for p in t['params']}
        want.append(group)
        entries = got.get(group) or [[]]
        eq(entries[0], ['type', t['name']], f'{what} NeXus type of {group}')
        names = [p['name'] for s in ('def', 'set') for p in t['params'] if p['section'] == s] + [f'len_{p["name"]}' for p in t['params'] if p['kind'] in VECTORS]
        eq([e[0] for e in entries[1:]], names, f'{what} NeXus parameters of {group}')
        for name, kind, v in m.parameters(i):
            e = next(e for e in entries if e[0] == name)[1]
            default, value, ctype = e.split('|')
            eq(ctype.replace(' ', ''), dict(bare='double', double='double', int='int', string='char*', charp='char*', vector='double*', doublep='double*', intp='int*')[kind],
               f'{what} NeXus type of {name} of {group}')
            if kind in ('string', 'charp'):
                eq(value, v, f'{what} NeXus value of {name} of {group}')
                d = ps[name]['default']
                eq(default, '' if d in (None, 'NULL', '0') else gen_values.unescaped(d[1:-1]), f'{what} NeXus default of {name} of {group}')
            elif kind not in VECTORS and ps[name]['default'] is not None:
                number = gen_values.Model(dict(prog, values={}, change=None, params=[])).value
                d = number(ps[name]['default'])
                check(close(number(default), d), f'{what} NeXus default of {name} of {group} is {default!r}, expected {d}')
                if name not in c['given']:
                    check(close(number(value), d), f'{what} NeXus value of {name} of {group} is {value!r}, expected {d}')
    eq(sorted(got), want, f'{what} NeXus groups')


@sub('text', gen_values.program(), quick=240, thorough=6000, rule='instruments from text')
def text(prog, rec):
    run(prog, rec)


def assemble(prog, comps, ways):
    """The same instrument stated through an Assembler"""
    from vlib.props import a01
    w = a01.Ways(ways)
    a = L.assembler(comps, 'values')
    declare, init, save, final = gen_values.blocks(prog)
    types = prog['types']

    def parameters():
        for p in prog['params']:
            a01.add_parameter(a, p, w)
    first = w('parameters first', 2)
    if first:
        parameters()
    for f, src in ((a.declare, declare), (a.initialize, init), (a.save, save), (a.final, final)):
        f(src)
    for i, c in enumerate(prog['comps']):
        given, _ = gen_values.component_parts(prog, i)
        words = {'MYSELF': i, 'PREVIOUS': i - 1}    # (only known where the text of an instrument is read)
        given = {n: f'"{gen_values.own_name(prog, words[v])}"' if isinstance(v, str) and v in words else v for n, v in given.items()}
        name = lambda r: None if r is None else gen_values.own_name(prog, r)
        rot = (c['rot'], name(c['rot_ref'])) if c['rot'] else (['0', '0', '0'], name(c['at_ref']))
        t = types[c['type']]
        kinds = {p['name']: p['kind'] for p in t['params']}
        info = dict(name=name(i), type=t['name'], params={n: [a01.number(x) if a01.number(x) is not None else x for x in v] if isinstance(v, list) else v for n, v in given.items()}, at=(c['at'], name(c['at_ref'])),
                    rot=rot, when=None, split=None, group=None, removable=False, cpu=False, extend=None, jumps=[], metadata=[])
        kinds.update({n: 'int' for n in given if n not in kinds})
        a01.add_component(a, info, w, {t['name']: dict(define=[], setting=[dict(name=n, kind=k) for n, k in kinds.items()])})
    if not first:
        parameters()
    rec = w.used
    return a.instrument, rec


@sub('assembled', st.tuples(gen_values.program(), WAYS).map(list), quick=140, thorough=4000, rule='instruments from an Assembler')
def assembled(case, rec):
    prog, ways = case
    run(prog, rec, ways)


@sub('nexus', gen_values.program(), quick=80, thorough=2000, rule='with NeXus output')
def with_nexus(prog, rec):
    run(prog, rec, flags=['-DUSE_NEXUS', '-D_GNU_SOURCE'])
