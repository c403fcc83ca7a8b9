"""Instruments which print every value their components have, and the reference model of those values."""
import json
import math
import re

import numpy as np
from hypothesis import strategies as st

from vlib import cexpr, gen_expr, geom

NUMERIC = ['A', 'k', 'D', 'E_i']
STRINGS = ['f', 'name2']
GLOBALS = ['g1', 'g2']
ARRAYS = dict(arr1=[1.5, -2.0, 3.25], iarr=[4, 5, -6])
PNAMES = ['A', 'p1', 'width', 'n', 'E0', 'q_2', 'D']
SNAMES = ['f', 'filename', 'opt']
VNAMES = ['vec', 'pos2', 'w']
DOUBLES = ['0', '1', '-2.5', '1e-3', '0.5', '2*3.5', '1e10', '0.1', '-(1+2)', '7', '3/4.0', '-3']
INTS = ['0', '1', '-3', '7', '2*3', '12', '-(4-1)', '0x1F', '017']
WORDS = ['abc', 'a b', 'x_y.z', '', 'A', 'k', 'NULL?', '0', '/tmp/a,b;c', 'D+1', '100', '{}()', 'None', '%', 'Å ä', 'x\\ty', 'q\\"z', '\\\\']
NAME = 'c'
DISTANCE = re.compile(r'setpos_getdistance\("c(\d+)", "c(\d+)"\)')
FUNCTIONS = ['sqrt(fabs(%s))', 'fabs(%s)', 'fmin(%s, 2)', 'cos(%s)', '(%s)', 'fmax(0.5, %s)', '-fabs(%s)', 'fabs(%s) > 1 ? 2 : 3']


def no_pow(t):
    if isinstance(t, list):
        if t and t[0] == 'bin' and t[1] == '^':
            t = ['bin', '*'] + t[2:]
        if t and t[0] == 'bin' and t[1] == '/':  # C divides integers differently
            t = ['bin', '/', t[2], ['bin', '*', ['num', '0.5'], t[3]]]
        return [no_pow(x) for x in t]
    return t


@st.composite
def expression(draw, ids):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.sampled_from(ids))
    if k == 1:
        return draw(st.sampled_from(['1', '2.5', '-3', '0', '1e2', '7', '-0.125']))
    t = cexpr.render(cexpr.avoid_quirks(no_pow(draw(gen_expr.tree(2, ids, 'arith', False)))))
    return draw(st.sampled_from(FUNCTIONS)) % t if k == 2 else t


@st.composite
def program(draw):
    params = []
    for n in draw(st.lists(st.sampled_from(NUMERIC), unique=True, max_size=4)):
        kind = draw(st.sampled_from(['bare', 'double', 'int']))
        params.append(dict(name=n, kind=kind, default=draw(st.one_of(st.none(), st.sampled_from(INTS if kind == 'int' else DOUBLES)))))
    for n in draw(st.lists(st.sampled_from(STRINGS), unique=True, max_size=2)):
        params.append(dict(name=n, kind=draw(st.sampled_from(['string', 'charp'])),
                           default=draw(st.one_of(st.none(), st.just('NULL'), st.sampled_from(WORDS).map(lambda s: f'"{s}"')))))
    draw(st.randoms(use_true_random=False)).shuffle(params)
    values = {}
    for p in params:
        p['unit'] = draw(st.sampled_from([None, None, 'meV', '1/AA', 'deg']))
        if p['default'] in (None, 'NULL', '""') or draw(st.booleans()):
            values[p['name']] = draw(st.sampled_from(WORDS) if p['kind'] in ('string', 'charp') else st.integers(-4, 9) if p['kind'] == 'int'
                                     else st.sampled_from([0, 1, -2.5, 3, 0.125, 7, 1e-3]))
    numeric = [p['name'] for p in params if p['kind'] not in ('string', 'charp')]
    texts = [p['name'] for p in params if p['kind'] in ('string', 'charp')]
    ids = numeric + GLOBALS
    change = draw(st.sampled_from(numeric)) if numeric and draw(st.booleans()) else None
    types = []
    for i in range(draw(st.integers(1, 3))):
        ps = []
        for n in draw(st.lists(st.sampled_from(PNAMES), unique=True, max_size=4)):
            kind = draw(st.sampled_from(['bare', 'double', 'int']))
            ps.append(dict(name=n, kind=kind, default=draw(st.sampled_from(INTS if kind == 'int' else DOUBLES)), section=draw(st.sampled_from(['set', 'set', 'set', 'def']))))
        for n in draw(st.lists(st.sampled_from(SNAMES), unique=True, max_size=2)):
            ps.append(dict(name=n, kind=draw(st.sampled_from(['string', 'charp'])), section=draw(st.sampled_from(['set', 'set', 'set', 'def'])),
                           default=draw(st.one_of(st.sampled_from(['NULL', '0']), st.sampled_from(WORDS).map(lambda s: f'"{s}"')))))
        for n in draw(st.lists(st.sampled_from(VNAMES), unique=True, max_size=1)):
            kind = draw(st.sampled_from(['vector', 'doublep', 'intp']))
            ps.append(dict(name=n, kind=kind, section='set', default=draw(st.sampled_from(['NULL', '0', ['1', '2.5', '-3'] if kind != 'intp' else ['1', '2', '-3']]))))
        for p in ps:
            if draw(st.integers(0, 7)) == 7:
                p['default'] = None
        draw(st.randoms(use_true_random=False)).shuffle(ps)
        types.append(dict(name=f'Type{i}', params=ps, output=draw(st.booleans()), declare=draw(st.lists(st.sampled_from(sorted(DECLARES)), unique=True, max_size=4))))
    comps = []
    for i in range(draw(st.integers(1, 5))):
        t = draw(st.integers(0, len(types) - 1))
        given = {}
        for p in types[t]['params']:
            if p['default'] is not None and draw(st.integers(0, 3)) == 0:
                continue
            if p['kind'] in ('bare', 'double', 'int'):
                given[p['name']] = draw(expression(ids))
            elif p['kind'] in ('string', 'charp'):
                given[p['name']] = draw(st.one_of(st.sampled_from(WORDS).map(lambda s: f'"{s}"'), st.sampled_from(texts + ['gs', 'MYSELF', 'NULL'] + ['PREVIOUS'] * (i > 0))))
            else:
                given[p['name']] = draw(st.one_of(st.just('NULL'), st.just('iarr' if p['kind'] == 'intp' else 'arr1'),
                                                  st.lists(st.sampled_from(['1', '-2', '7']) if p['kind'] == 'intp' and not ids else
                                                           st.one_of(st.sampled_from(['1', '-2', '0.5', '7']), st.sampled_from(ids), expression(ids)) if p['kind'] != 'intp' else
                                                           st.one_of(st.sampled_from(['1', '-2', '7']), st.sampled_from(ids)), min_size=1, max_size=4)))
        ref = st.one_of(st.none(), st.integers(0, i - 1)) if i else st.none()
        comps.append(dict(type=t, given=given, at=[draw(expression(ids)) for _ in range(3)], at_ref=draw(ref),
                          rot=[draw(expression(ids)) for _ in range(3)] if draw(st.booleans()) else None, rot_ref=draw(ref)))
        if i > 1 and draw(st.integers(0, 2)) == 0:      # placed by means of the distance of two earlier components
            a, b = draw(st.integers(0, i - 1)), draw(st.integers(0, i - 1))
            comps[i]['at'][draw(st.integers(0, 2))] = f'setpos_getdistance("{NAME}{a}", "{NAME}{b}")'
    return dict(params=params, values=values, change=change, types=types, comps=comps, early=draw(st.booleans()))


# variables of a component type: declaration, what sets it, how it is shown, its value when shown after initialisation and n particles
DECLARES = {
    'cnt': ('int cnt = 3;', 'cnt += 10 * _comp->_index;', '"%d", cnt', lambda i, n: str(3 + 10 * i + n), 'cnt++;'),
    'acc': ('double acc;', 'acc = 0.5 + _comp->_index;', '"%.17g", acc', lambda i, n: f'{0.5 + i + 2 * n:.17g}', 'acc += 2;'),
    'tbl': ('double tbl[3] = {1, 2.5, 3};', 'tbl[1] += _comp->_index;', '"%g/%g/%g", tbl[0], tbl[1], tbl[2]', lambda i, n: f'1/{2.5 + i:g}/{3 + n:g}', 'tbl[2]++;'),
    'own': ('char own[64];', 'strcpy(own, NAME_CURRENT_COMP);', '"%s", own', lambda i, n: None, ''),
    'ptr': ('double *ptr;', 'if (ptr == NULL) { ptr = malloc(sizeof(double)); *ptr = _comp->_index; }', '"%g", *ptr', lambda i, n: f'{i - n:g}', '*ptr -= 1;'),
    'grid': ('int grid[2][2] = {{1, 2}, {3, 4}};', 'grid[1][0] += _comp->_index;', '"%d/%d/%d/%d", grid[0][0], grid[0][1], grid[1][0], grid[1][1]',
             lambda i, n: f'1/2/{3 + i}/{4 + n}', 'grid[1][1]++;'),
    'word': ('char word[12] = "ab,c";', 'word[0] = \'0\' + _comp->_index;', '"%s", word', lambda i, n: f'{i}b,c', ''),
    'open': ('char open[] = "a\\"b";', 'open[0] = \'0\' + _comp->_index;', '"%s/%d", open, (int) sizeof(open)', lambda i, n: f'{i}"b/4', ''),
    'uneven': ('int uneven[][3] = {{1}, {2, 3}};', 'uneven[0][2] += _comp->_index;', '"%d/%d/%d/%d", uneven[0][0], uneven[0][2], uneven[1][1], (int) sizeof(uneven)', lambda i, n: f'1/{i}/3/24', ''),
    'st2': ('struct { int a; double b; } st2 = {.b = 0.5, .a = 2};', 'st2.a += _comp->_index;', '"%d/%g", st2.a, st2.b', lambda i, n: f'{2 + i + n}/0.5', 'st2.a++;'),
    'pair': ('long hi = 5, lo = -1;', 'hi += lo;', '"%ld/%ld", hi, lo', lambda i, n: f'{4 + n}/-1', 'hi++;'),
    'st': ('struct { int a; double b; } st;', 'st.a = _comp->_index; st.b = 0.25;', '"%d/%g", st.a, st.b', lambda i, n: f'{i + n}/0.25', 'st.a++;'),
}


def unescaped(s):
    return re.sub(r'\\(.)', lambda m: {'t': '\t'}.get(m[1], m[1]), s)


def kind_text(k):
    return dict(bare='', double='double ', int='int ', string='string ', charp='char * ', vector='vector ', doublep='double * ', intp='int * ')[k]


def listed(v):
    return '{' + ', '.join(v) + '}' if isinstance(v, list) else v


def own_name(prog, i):
    return f'{NAME}{i}'


def clean(prog):
    """Replaces what has no defined value at the values of this run"""
    m = Model(prog)

    def ok(text):
        try:
            v = m.value(text)
            return isinstance(v, (int, float)) and not isinstance(v, complex) and math.isfinite(v) and abs(v) < 1e8
        except (cexpr.Undefined, ZeroDivisionError, OverflowError, ValueError):
            return False
    for c in prog['comps']:
        c['at'] = [x if ok(x) else '1' for x in c['at']]
        if c['rot']:
            c['rot'] = [x if ok(x) else '30' for x in c['rot']]
        for p in prog['types'][c['type']]['params']:
            v = c['given'].get(p['name'])
            if v is None or p['kind'] in ('string', 'charp') or isinstance(v, str) and p['kind'] in ('vector', 'doublep', 'intp'):
                continue
            c['given'][p['name']] = [x if ok(x) else '1' for x in v] if isinstance(v, list) else v if ok(v) else '1'
    return prog


def show_code(where, t, count):
    out = []
    for p in t['params']:
        n = p['name']
        if p['kind'] in ('bare', 'double'):
            out.append(f'printf("{where} %s {n} %.17g\\n", NAME_CURRENT_COMP, {n});')
        elif p['kind'] == 'int':
            out.append(f'printf("{where} %s {n} %d\\n", NAME_CURRENT_COMP, {n});')
        elif p['kind'] in ('string', 'charp'):
            out.append(f'printf("{where} %s {n} [%s]\\n", NAME_CURRENT_COMP, {n});')
        else:
            out.append(f'printf("{where} %s {n} ", NAME_CURRENT_COMP); if (!{n}) printf("NULL"); else for (int i = 0; i < len_{n}; i++) printf("%.17g,", (double) {n}[i]); printf("\\n");')
    for d in t['declare']:
        out.append(f'printf("{where} %s {d} ", NAME_CURRENT_COMP); printf({DECLARES[d][2]}); printf("\\n");')
    return '\n  '.join(out)


def comp_text(t):
    params = {s: [f'{kind_text(p["kind"])}{p["name"]}' + (f' = {listed(p["default"])}' if p["default"] is not None else '') for p in t['params'] if p['section'] == s] for s in ('def', 'set')}
    params['set'] += [f'int len_{p["name"]} = 3' for p in t['params'] if p['kind'] in ('vector', 'doublep', 'intp')]
    out = [f'DEFINE COMPONENT {t["name"]}']
    if params['def']:
        out.append(f'DEFINITION PARAMETERS ({", ".join(params["def"])})')
    if params['set']:
        out.append(f'SETTING PARAMETERS ({", ".join(params["set"])})')
    if t['declare'] and t.get('output'):     # (named by old components, as what DECLARE declares)
        out.append(f'OUTPUT PARAMETERS ({", ".join(d for d in t["declare"] if d != "pair")})')
    if t['declare']:
        out.append('DECLARE %{\n' + '\n'.join(DECLARES[d][0] for d in t['declare']) + '\n%}')
    out.append('INITIALIZE %{\n  ' + '\n  '.join(DECLARES[d][1] for d in t['declare']) + '\n  ' + show_code('init', t, 0) + '\n%}')
    out.append('TRACE %{\n  ' + '\n  '.join(DECLARES[d][4] for d in t['declare']) + '\n  ' + show_code('trace', t, 1) + '\n%}')
    out.append('SAVE %{\n  ' + show_code('save', t, 1) + '\n%}')
    out.append('FINALLY %{\n  ' + show_code('finally', t, 1) + '\n%}')
    return '\n'.join(out) + '\nEND\n'


def parameter_text(p):
    return kind_text(p['kind']) + p['name'] + (f'/"{p["unit"]}"' if p['unit'] else '') + ('' if p['default'] is None else f' = {p["default"]}')


def blocks(prog):
    numeric = [p for p in prog['params'] if p['kind'] not in ('string', 'charp')]
    first = numeric[0]['name'] if numeric else '1'
    declare = 'double g1;\nint g2;\nchar gs[64];\ndouble arr1[] = {1.5, -2.0, 3.25};\nint iarr[] = {4, 5, -6};'
    init = ['g1 = 2.0 * (' + first + ') + 0.5;', 'g2 = 3;', 'strcpy(gs, "global");']
    if prog['change']:
        init.insert(0 if prog['early'] else 3, f'{prog["change"]} = {prog["change"]} + 1;')
    show = []
    for p in prog['params']:
        fmt = '[%s]' if p['kind'] in ('string', 'charp') else '%d' if p['kind'] == 'int' else '%.17g'
        show.append(f'printf("@ instrument {p["name"]} {fmt}\\n", {p["name"]});')
    final = [s.replace('"@', '"finally') for s in show]
    for i, c in enumerate(prog['comps']):
        n = own_name(prog, i)
        final.append(f'printf("index {n} %d %d\\n", _getcomp_index("{n}"), _getvar_parameters("{n}") == (void *) &_{n}_var._parameters);')
        final.append(f'printf("position {n} %.17g %.17g %.17g\\n", POS_A_COMP_INDEX({i + 1}).x, POS_A_COMP_INDEX({i + 1}).y, POS_A_COMP_INDEX({i + 1}).z);')
        for j in range(len(prog['comps'])):
            final.append(f'printf("distance {i} {j} %.17g %.17g\\n", getdistance("{n}", "{own_name(prog, j)}"), index_getdistance({i + 1}, {j + 1}));')
    return declare, '\n'.join(init + [s.replace('"@', '"init') for s in show]), '\n'.join(s.replace('"@', '"save') for s in show), '\n'.join(final)


def component_parts(prog, i):
    c = prog['comps'][i]
    vectors = [p['name'] for p in prog['types'][c['type']]['params'] if p['kind'] in ('vector', 'doublep', 'intp')]
    given = dict(c['given'])
    for n in vectors:
        v = given.get(n)
        if isinstance(v, list):
            given[f'len_{n}'] = str(len(v))
    ref = lambda r: 'ABSOLUTE' if r is None else f'RELATIVE {own_name(prog, r)}'
    return given, ref


def text(prog):
    declare, init, save, final = blocks(prog)
    out = [f'DEFINE INSTRUMENT values({", ".join(parameter_text(p) for p in prog["params"])})', 'DECLARE %{\n' + declare + '\n%}',
           'INITIALIZE %{\n' + init + '\n%}', 'TRACE']
    for i, c in enumerate(prog['comps']):
        given, ref = component_parts(prog, i)
        out.append(f'COMPONENT {own_name(prog, i)} = {prog["types"][c["type"]]["name"]}({", ".join(f"{n} = {listed(v)}" for n, v in given.items())})')
        out.append(f'AT ({", ".join(c["at"])}) {ref(c["at_ref"])}')
        if c['rot']:
            out.append(f'ROTATED ({", ".join(c["rot"])}) {ref(c["rot_ref"])}')
    out += ['SAVE %{\n' + save + '\n%}', 'FINALLY %{\n' + final + '\n%}', 'END\n']
    return '\n'.join(out)


FUNCS = dict(sqrt=math.sqrt, fabs=abs, fmin=lambda a, b: float(min(a, b)), fmax=lambda a, b: float(max(a, b)), cos=math.cos)
FUNCS = {k: (lambda f: lambda *a: float(f(*a)))(f) for k, f in FUNCS.items()}


class Model:
    def __init__(self, prog):
        self.prog, self.env = prog, {}
        for p in prog['params']:
            n = p['name']
            if p['kind'] in ('string', 'charp'):
                self.env[n] = str(prog['values'][n]) if n in prog['values'] else None if p['default'] in (None, 'NULL') else unescaped(p['default'][1:-1])
            else:
                v = prog['values'][n] if n in prog['values'] else cexpr.evaluate(cexpr.parse(p['default']), {}, FUNCS)
                self.env[n] = int(v) if p['kind'] == 'int' else float(v)
        numeric = [p['name'] for p in prog['params'] if p['kind'] not in ('string', 'charp')]
        if prog['change'] and prog['early']:
            self.env[prog['change']] += 1
        self.env['g1'] = 2.0 * (self.env[numeric[0]] if numeric else 1) + 0.5
        self.env['g2'] = 3
        if prog['change'] and not prog['early']:
            self.env[prog['change']] += 1

    def value(self, text):
        if d := DISTANCE.fullmatch(text):
            return self.distance(int(d[1]), int(d[2]))
        return cexpr.evaluate(cexpr.parse(text), self.env, FUNCS)

    def parameters(self, i):
        """[(name, kind, value)]"""
        c, out = self.prog['comps'][i], []
        t = self.prog['types'][c['type']]
        for p in t['params']:
            v = c['given'].get(p['name'], p['default'])
            given = p['name'] in c['given']
            if p['kind'] in ('bare', 'double', 'int'):
                v = self.value(v)
                v = int(v) if p['kind'] == 'int' else float(v)
            elif p['kind'] in ('string', 'charp'):
                v = '' if v in ('NULL', '0') else unescaped(v[1:-1]) if v.startswith('"') else 'global' if v == 'gs' else own_name(self.prog, i) if v == 'MYSELF' else \
                    own_name(self.prog, i - 1) if v == 'PREVIOUS' else self.env[v] or ''
            elif isinstance(v, list):
                v = [(int if p['kind'] == 'intp' else float)(self.value(x)) for x in v]
            elif v in ARRAYS:
                v = ARRAYS[v]
            else:
                v = None
            out.append((p['name'], p['kind'], v))
        return out

    def distance(self, i, j):
        return math.dist(*[[float(x) for x in self.place(k)[0]] for k in (i, j)])

    def place(self, i):
        c = self.prog['comps'][i]
        at = None if c['at_ref'] is None else self.place(c['at_ref'])
        if c['rot'] is None:
            angles, rot = [0, 0, 0], at
        else:
            angles, rot = [self.value(a) for a in c['rot']], None if c['rot_ref'] is None else self.place(c['rot_ref'])
        return geom.place([self.value(a) for a in c['at']], at, angles, rot)

    def places(self):
        return [self.place(i) for i in range(len(self.prog['comps']))]
