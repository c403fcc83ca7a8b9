"""A01: an instrument assembled in Python equals the one written as text."""
import json
import re

from hypothesis import strategies as st

from vlib import cexpr, engine, gen_comp, gen_instr, view, lib as L
from vlib.engine import check, eq
from vlib.props import i01

SUBS, sub = engine.registry()
RULE = 'non-trivial: two or more component instances with at least three different optional clauses, or parameters, stated in at least three different ways'
ASSUMPTIONS = ['a parameter without unit and one with an empty unit are the same',
               'instance names are unique, references are to instances which were assembled before']

WAYS = st.lists(st.integers(0, 59), min_size=4, max_size=40)


class Ways:
    """A choice at each point where the assembler offers several"""

    def __init__(self, ways):
        self.ways, self.i, self.used = ways, 0, set()

    def __call__(self, what, n):
        k = self.ways[self.i % len(self.ways)] % n
        self.i += 1
        self.used.add((what, k))
        return k


def number(text):
    """The Python number a literal text is, if it is one"""
    try:
        return int(text, 10) if not (text.lstrip('-').startswith('0') and text.lstrip('-') != '0') else None
    except ValueError:
        pass
    try:
        return float(text)
    except ValueError:
        return None


def expr(text):
    from mccode_antlr.common import Expr
    return Expr.parse(text)


def coordinate(w, text):
    n = number(text)
    k = w('coordinate', 4)
    if k == 0 or n is None and k == 2:
        return text
    if k == 1:
        return expr(text)
    return n if n is not None else text


def param_text(p):
    t = dict(bare='', double='double ', int='int ', string='string ', charp='char * ')[p['kind']] + p['name']
    if p['unit'] is not None:
        t += f'/"{p["unit"]}"'
    return t + (f' = {p["default"]}' if p['default'] is not None else '')


def add_parameter(a, p, w):
    from mccode_antlr.common import Expr, InstrumentParameter
    k = w('parameter', 7)
    default = p['default']
    kind = dict(bare='float', double='float', int='int', string='str', charp='str')[p['kind']]
    if k in (3, 4, 5, 6) and default is None:
        k = 2
    if k in (0, 1):
        (a.parameter if k == 0 else a.parameters)(param_text(p))
    elif k == 2:
        e = None if default is None else default if kind == 'str' else expr(default)
        a.parameter(InstrumentParameter(p['name'], None if p['unit'] is None else f'"{p["unit"]}"', getattr(Expr, kind)(e)))
    else:
        value = Expr.str(default) if default == 'NULL' else default
        if kind != 'str':
            n = number(default)
            value = getattr(Expr, kind)(expr(default)) if n is None else float(n) if kind == 'float' else n
        if k == 3 and not p['unit']:
            a.parameters(**{p['name']: value})
        elif k == 4:
            a.parameters(**{p['name']: (value, p['unit'] or '')})
        elif k == 5:
            a.parameters(**{p['name']: dict(value=value, unit=p['unit'] or '')})
        else:
            a.parameters(**{p['name']: InstrumentParameter(p['name'], p['unit'] or '', value if isinstance(value, Expr) else getattr(Expr, kind)(value))})


def placement(a, c, w):
    """The at and rotate arguments"""
    get = a.instrument.get_component

    def ref(name, what):
        if name is None:
            return [None, 'ABSOLUTE', 'absolute', 'Absolute'][w(what, 4)]
        return [name, get(name)][w(what, 2)]
    at_v, at_r = [coordinate(w, x) for x in c['at'][0]], c['at'][1]
    triple = [tuple, list][w('triple', 2)]
    if at_r is None and w('at', 2):
        at = triple(at_v)
        if c['at'][0] == ['0', '0', '0'] and w('no at', 2):
            at = None
    else:
        at = (triple(at_v), ref(at_r, 'at reference'))
    rot_v, rot_r = [coordinate(w, x) for x in c['rot'][0]], c['rot'][1]
    if rot_r == at_r and w('rotate', 2):
        # relative to what the position is relative to
        rot = triple(rot_v)
        if c['rot'][0] == ['0', '0', '0'] and w('no rotate', 2):
            rot = None
    elif rot_r is None:
        rot = (triple(rot_v), 'ABSOLUTE')
    else:
        rot = (triple(rot_v), ref(rot_r, 'rotate reference'))
    return at, rot


def value(w, t, kind):
    if isinstance(t, list):
        return [list, tuple][w('list', 2)](t)
    if kind in ('vector', 'doublep', 'intp') and t.startswith('{') and w('vector', 2):
        # elements as texts, as expressions or as numbers (texts would be kept as they are)
        return [list, tuple][w('list', 2)]([coordinate(w, x) if x.isdigit() or x.isidentifier() else expr(x) for x in map(str.strip, t[1:-1].split(','))])
    k = w('value', 3)
    if k == 1 and kind not in ('vector', 'doublep', 'intp') and t != 'NULL':    # (an Expr which is an identifier is a scalar)
        return expr(t)
    n = number(t)
    if k == 2 and n is not None:
        return n
    return t


def add_component(a, c, w, types):
    from mccode_antlr.common import Expr, MetaData
    from mccode_antlr.common.block import RawC
    from mccode_antlr.instr.jump import Jump
    kw, later = {}, []
    at, rot = placement(a, c, w)
    kinds = {p['name']: p['kind'] for s in ('define', 'setting') for p in types[c['type']][s]}
    params = {n: value(w, t, kinds[n]) for n, t in c['params'].items()}
    k = w('parameters', 4)
    if k == 0:
        kw['parameters'] = params
    elif k == 1:
        later.append(lambda i: i.set_parameters(**params))
    elif k == 2:
        for n, v in params.items():
            later.append(lambda i, n=n, v=v: i.set_parameter(n, v))
    else:
        half = len(params) // 2
        kw['parameters'] = dict(list(params.items())[:half])
        later.append(lambda i: i.set_parameters(**dict(list(params.items())[half:])))
    for clause in ('when', 'split'):
        if c[clause] is not None:
            k = w(clause, 4)
            v = c[clause] if k % 2 else expr(c[clause])
            if k < 2:
                kw[clause] = v
            else:
                later.append(lambda i, m=clause.upper(), v=v: getattr(i, m)(v))
    if c['group'] is not None:
        if w('group', 2):
            kw['group'] = c['group']
        else:
            later.append(lambda i: i.GROUP(c['group']))
    if c['removable']:
        if w('removable', 2):
            kw['removable'] = True
        else:
            later.append(lambda i: i.REMOVABLE())
    if c['cpu']:
        if w('cpu', 2):
            kw['cpu'] = True
        else:
            later.append(lambda i: i.CPU())
    if c['extend'] is not None:
        src = c['extend'][0]
        k = w('extend', 3)
        if k == 0:
            kw['extend'] = (RawC('here', 1, src),)
        elif k == 1:
            later.append(lambda i: i.EXTEND(src))
        else:
            later.append(lambda i: i.EXTEND(RawC('here', 1, src)))
    if c['jumps']:
        jumps = []
        for t, n, word, e in c['jumps']:
            rel = view.JUMPS[t] * (n or 1) if t in view.JUMPS else 0
            jumps.append(Jump(t if n is None else f'{t}_{n}', rel, word == 'ITERATE', expr(e)))
        if w('jump', 2):
            kw['jump'] = tuple(jumps)
        else:
            later.append(lambda i: i.JUMP(*jumps))
    if c['metadata']:
        ms = [MetaData.from_instance_tokens(c['name'], m, n, v) for m, n, v in c['metadata']]
        if w('metadata', 2):
            kw['metadata'] = tuple(ms)
        else:
            for m in ms:
                later.append(lambda i, m=m: i.add_metadata(m))
    if at is not None:
        kw['at'] = at
    if rot is not None:
        kw['rotate'] = rot
    if w('positional', 3) == 0 and 'at' in kw and 'rotate' in kw:
        i = a.component(c['name'], c['type'], kw.pop('at'), kw.pop('rotate'), **kw)
    else:
        i = a.component(c['name'], c['type'], **kw)
    if w('order', 2):
        later.reverse() if not any('params' in f.__code__.co_freevars or 'm' in f.__code__.co_varnames for f in later) else None
    for f in later:
        f(i)
    return i


def assemble(prog, ways, registries=None, comps=None):
    """The instrument of *prog*, stated through an Assembler"""
    w = Ways(ways)
    types = gen_comp.resolve(prog['comps'])
    model = gen_instr.resolve(prog)
    a = L.assembler(comps, model['name'], registries)
    if prog['instr']['dependency'] is not None:
        a.instrument.DEPENDENCY(prog['instr']['dependency'])
    sections = dict(declare=a.declare, uservars=a.user_vars, initialize=a.initialize, save=a.save)
    sections['finally'] = a.final

    def state(s):
        def f():
            for src, *_ in model[s]:
                sections[s](src)
        return f

    def meta():
        for m, n, v in model['metadata']:
            a.metadata(n, m, v)

    def params():
        for p in model['params']:
            add_parameter(a, p, w)
    todo = [state(s) for s in sections] + [meta, params]
    for k in range(len(todo)):      # any order
        j = w('order', len(todo) - k)
        todo[k], todo[k + j] = todo[k + j], todo[k]
    cut = w('cut', len(todo) + 1)
    for f in todo[:cut]:
        f()
    for c in model['comps']:
        add_component(a, c, w, types)
    for f in todo[cut:]:
        f()
    return a.instrument, w


def plain(v):
    v = json.loads(json.dumps(v))
    for p in v['params']:
        p['unit'] = p['unit'] or None
        if p['default'] == 'None':
            p['default'] = None
    return v


def compare(got, want, what):
    from vlib.props.i02 import same_but_place
    same_but_place(plain(view.of_instr(got)), plain(view.of_instr(want)), what)
    where = lambda ms: sorted((m.source.name, m.source.type_name, m.name) for m in ms)
    eq(where(got.metadata), where(want.metadata), f'{what} whose metadata it is')
    for x, y in zip(got.components, want.components):
        eq(where(x.metadata), where(y.metadata), f'{what} instance {y.name} whose metadata it is')
        view.placed_alike(x, y, f'{what} instance {y.name}')
        for k in ('at_relative', 'rotate_relative'):
            r, s = getattr(x, k)[1], getattr(y, k)[1]
            eq(r and r.name, s and s.name, f'{what} instance {y.name} {k}')
            check(r is None or any(r is c for c in got.components), f'{what} instance {y.name} refers to an instance of another instrument')


@sub('assembled', st.tuples(gen_instr.program(5, includes=False), WAYS).map(list), quick=900, thorough=30000,
     rule='programs stated as text and through the methods of an Assembler')
def assembled(case, rec):
    prog, ways = case
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, [0])
    want = L.parse_instr(files['main'], comps, source='main.instr')
    got, w = assemble(prog, ways, comps=comps)
    what = f'assembled as {sorted(w.used)} instead of {files["main"]} with {json.dumps(comps)}:'
    if ('group', 0) in w.used:      # stated by a method of the instance, which the instrument does not see
        got.determine_groups()
    compare(got, want, what)
    i01.check_groups(got, what)
    f = gen_instr.features(prog)
    rec.label(*sorted(f), *(f'{a}-{b}' for a, b in w.used))
    clauses = f & {'when', 'group', 'extend', 'jumps', 'split', 'removable', 'cpu', 'metadata', 'rot'}
    rec.nontrivial(len(want.components) >= 2 and len(clauses) >= 3 or len({k for n, k in w.used if n == 'parameter'}) >= 3, key=case)


def comparable(c):
    """The generated C without what tells where text comes from, and with one way to write a whole number"""
    c = re.sub(r'^ *(//|SIG_MESSAGE|#line|char +instrument_(source|code)|\* (Instrument|Date):).*$', '', c, flags=re.M)
    c = re.sub(r'(?<![\w.])(\d+)\.0(?!\d|e)', r'\1', c)
    # and one pair of parentheses around an element of a vector
    c = re.sub(r'(?<=\] = )\((\(+.*\)+)\)(?=;$)', r'\1', c, flags=re.M)
    c = re.sub(r'(?<=\] = )\((\(+.*\)+)\)(?=;$)', r'\1', c, flags=re.M)
    free = re.compile(r'^ *if *\(\w+\._parameters\.\w+\) free\(.*$', re.M)   # (in any order)
    return free.sub('', c) + '\n'.join(sorted(free.findall(c)))


@sub('translated', st.tuples(gen_instr.program(4, includes=False), WAYS, st.booleans()).map(list), quick=250, thorough=8000,
     rule='the C of an assembled instrument is that of the parsed one')
def translated(case, rec):
    from vlib.props import t03
    prog, ways, mcstas = case
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, [0])
    want = L.parse_instr(files['main'], comps, source='main.instr')
    try:
        want = t03.translate(want, mcstas)
    except Exception:
        rec.label('untranslatable')
        return
    got, w = assemble(prog, ways, comps=comps)
    if ('group', 0) in w.used:
        got.determine_groups()
    got = t03.translate(got, mcstas)
    t03.differ(comparable(got), comparable(want), f'assembled as {sorted(w.used)} instead of {files["main"]} with {json.dumps(comps)}, the C')
    f = gen_instr.features(prog)
    rec.label(*(f'{a}-{b}' for a, b in w.used if a == 'value'), *(k for k in ('when', 'group', 'extend', 'jumps', 'split') if k in f))
    rec.nontrivial(any(c.get('params') for c in prog['instr']['items']) and len(prog['instr']['items']) >= 1, key=case)


VARS = ['n1', 'n2', 'weight', 'flag']
TYPES = ['int', 'double', 'long', 'char *']
declared = st.tuples(st.sampled_from(TYPES), st.sampled_from(VARS)).map(list)


@st.composite
def user_history(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(['ensure', 'ensure', 'add', 'declare', 'parameter', 'ensure parameter', 'array']))
        v = draw(st.lists(declared, min_size=1, max_size=3 if k == 'add' else 1, unique_by=lambda x: x[1]))
        ops.append([k, v, draw(st.sampled_from([';', ' ;', '; // a comment', '']))])
    return ops


@sub('ensured', user_history(), quick=300, thorough=8000, rule='user variables, parameters and arrays which are stated if they are not known yet')
def ensured(ops, rec):
    a = L.assembler({'Arm': 'DEFINE COMPONENT Arm TRACE %{ %} END'}, 'ensured')
    users, params, declares, known = [], [], [], 0
    for op, vs, end in ops:
        t, n = vs[0]
        what = f'after {ops}: {op} {vs}'
        names = [x for block in users for x in block]
        if op == 'add':
            if any(v[1] in [x[1] for x in names] for v in vs):
                continue
            a.user_vars(' '.join(f'{t} {n};' for t, n in vs))
            users.append(vs)
        elif op == 'ensure':
            if n in [x[1] for x in names]:
                known += 1
            else:
                users.append(vs)
            if end == '' or end.startswith(' '):
                end = ';'
            a.ensure_user_var(f'{t} {n}{end}')
        elif op == 'declare':
            a.declare(f'{t} d_{n};')
            declares.append(f'{t} d_{n};')
        elif op == 'array':
            a.declare_array(t, f'a_{n}', [1, 2.5, n])
            declares.append(f'{t} a_{n}[] = {{1,2.5,{n}}};')
        elif op == 'ensure parameter':
            a.parameter(f'double {n} = 1', ignore_repeated=True)
            if n in params:
                known += 1
            else:
                params.append(n)
        elif n in params:
            try:
                a.parameter(f'double {n} = 2')
            except RuntimeError:
                known += 1
                continue
            raise engine.Violation(f'{what} repeats a parameter, which is not refused')
        else:
            a.parameter(f'double {n} = 1')
            params.append(n)
    from mccode_antlr.translators.c_listener import extract_c_declared_variables as extract
    got = [sorted((d.dtype.split()[0], d.name) for d in extract(b.source)) for b in a.instrument.user]
    eq(got, [sorted((t.split()[0], n) for t, n in b) for b in users], f'{ops}: the blocks of USERVARS')
    eq([(p.name, float(p.value.value)) for p in a.instrument.parameters], [(n, 1.0) for n in params], f'{ops}: the parameters')
    eq([b.source for b in a.instrument.declare], declares, f'{ops}: the blocks of DECLARE')
    rec.label(*{o[0] for o in ops})
    rec.nontrivial(known > 0 and len(ops) > 2, key=ops)
