"""What an instrument object says, as plain data, and its comparison with what is expected."""
import re

from vlib import cexpr, engine, gen_expr
from vlib.engine import check, eq
from vlib.gen_instr import blank


def envs(names):
    names = sorted(names)
    base = gen_expr.fixed_envs([str(i) for i in range(12)])
    return [{n: e[str(i % 12)] + (0.5 if i >= 12 else 0) for i, n in enumerate(names)} for e in base]


def split_list(text):
    return text.strip()[1:-1]


def same_expr(got, want, what, need_value=False):
    """Two C expressions (texts) denote the same value whatever the values of their identifiers"""
    if got == want:
        return 1
    check(got is not None and want is not None, f'{what} is {got!r} instead of {want!r}')
    got, want = str(got), str(want)
    if want.strip().startswith('{'):
        check(got.strip().startswith('{'), f'{what} is {got!r} instead of {want!r}')
        try:
            g, w = cexpr.parse_list(split_list(got)), cexpr.parse_list(split_list(want))
        except cexpr.BadSyntax as e:
            raise engine.Violation(f'{what}: {got!r} is no list ({e}), expected {want!r}')
        eq(len(g), len(w), f'{what}: number of elements of {got!r}')
        return sum(_same(a, b, f'{what} element', got, want) for a, b in zip(g, w))
    if want.startswith('"'):
        eq(got, want, what)
        return 1
    try:
        g = cexpr.parse(got)
    except cexpr.BadSyntax as e:
        raise engine.Violation(f'{what}: {got!r} is no expression ({e}), expected {want!r}')
    return _same(g, cexpr.parse(want), what, got, want)


def _same(g, w, what, got, want):
    n = 0
    for env in envs(cexpr.names(g) | cexpr.names(w)):
        try:
            wv = cexpr.evaluate(w, env)
        except (cexpr.Undefined, KeyError):
            continue
        try:
            gv = cexpr.evaluate(g, env)
        except (cexpr.Undefined, KeyError) as e:
            raise engine.Violation(f'{what}: {got!r} has no value ({e}) where {want!r} is {wv} at {env}')
        check(cexpr.same(gv, wv), f'{what}: {got!r} is {gv} but {want!r} is {wv} at {env}')
        n += 1
    return n


def expr_text(e):
    """The C text of an expression of the library"""
    if e is None:
        return None
    if e.is_vector and e.is_singular and isinstance(e.expr[0].value, (list, tuple)):
        return '{' + ', '.join(str(x) for x in e.expr[0].value) + '}'
    return str(e)


unquote = lambda s: s[1:-1] if s[:1] == '"' and s[-1:] == '"' and len(s) > 1 else s


def of_param(p):
    v = p.value
    kind = 'string' if v.data_type.name == 'str' else 'int' if v.data_type.name == 'int' else 'double'
    return dict(name=p.name, kind=kind, unit=None if p.unit is None else unquote(p.unit),
                default=None if v.is_constant and v.value is None else str(v))


def of_meta(m):
    return [m.mimetype, unquote(m.name), m.value]


def of_block(b):
    return [b.source, str(b.filename), b.line]


def of_instance(i):
    return dict(name=i.name, type=i.type.name, removable=bool(i.removable), cpu=bool(i.cpu), split=expr_text(i.split),
                params=[[p.name, expr_text(p.value)] for p in i.parameters], when=expr_text(i.when), group=i.group,
                extend=[of_block(b) for b in i.extend],
                jumps=[[re.sub(r'^(PREVIOUS|NEXT)_\d+$', r'\1', j.target) if j.relative_target else j.target, j.relative_target, bool(j.iterate), str(j.condition)] for j in i.jump],
                metadata=[of_meta(m) for m in i.metadata],
                at=[[str(x) for x in (i.at_relative[0].x, i.at_relative[0].y, i.at_relative[0].z)],
                    i.at_relative[1].name if i.at_relative[1] is not None else None],
                rot=[[str(x) for x in (i.rotate_relative[0].x, i.rotate_relative[0].y, i.rotate_relative[0].z)],
                     i.rotate_relative[1].name if i.rotate_relative[1] is not None else None])


def of_instr(instr):
    return dict(name=instr.name, params=[of_param(p) for p in instr.parameters], metadata=[of_meta(m) for m in instr.metadata],
                flags=list(instr.flags), included=list(instr.included),
                declare=[of_block(b) for b in instr.declare], uservars=[of_block(b) for b in instr.user],
                initialize=[of_block(b) for b in instr.initialize], save=[of_block(b) for b in instr.save],
                finally_=[of_block(b) for b in instr.final], comps=[of_instance(i) for i in instr.components],
                groups={k: list(g.ids) for k, g in instr.groups.items()})


def same_param(got, want, what):
    """*want*: as generated"""
    what = f'{what} parameter {want["name"]}'
    eq(got['name'], want['name'], what)
    kind = dict(bare='double', double='double', int='int', string='string', charp='string')[want['kind']]
    eq(got['kind'], kind, f'{what} type')
    eq(got['unit'], want['unit'], f'{what} unit')
    if want['default'] is None:
        check(got['default'] in (None, 'None'), f'{what} has the default {got["default"]} but none is stated')
    elif kind == 'string':
        eq(got['default'], want['default'], f'{what} default')
    else:
        check(got['default'] is not None, f'{what} has no default instead of {want["default"]}')
        same_expr(got['default'], want['default'], f'{what} default')


JUMPS = dict(PREVIOUS=-1, NEXT=1)


def same_jump(got, want, what):
    """*got*: [target, relative, iterate, text]; *want*: [target, count, word, text] as generated"""
    t, n, word, e = want
    if t in JUMPS:
        n = JUMPS[t] * (n or 1)
        check(got[0] == t, f'{what} goes to {got[0]} instead of {t}')
        eq(got[1], n, f'{what}: how many instances to jump')
    else:
        eq(got[0], t, f'{what} target')
    eq(got[2], word == 'ITERATE', f'{what} is counted')
    same_expr(got[3], e, f'{what} {"count" if word == "ITERATE" else "condition"}')


def same_blocks(got, want, what, lines=True):
    eq([b[0] for b in got], [b[0] for b in want], what)
    for g, w in zip(got, want):
        if lines and w[2] is not None:
            eq(g[2], w[2], f'{what} line number')
            check(w[1] in g[1].rsplit('/', 1)[-1], f'{what} says it is from {g[1]}, it is from {w[1]}')


def check_instr(instr, model, groups, what, lines=True):
    """The instrument object is what resolve() says"""
    got = of_instr(instr)
    eq(got['name'], model['name'], f'{what} name')
    eq([p['name'] for p in got['params']], [p['name'] for p in model['params']], f'{what} parameters')
    for g, w in zip(got['params'], model['params']):
        same_param(g, w, what)
    eq(got['metadata'], model['metadata'], f'{what} metadata')
    eq(got['included'], model['included'], f'{what} included instruments')
    for s in ('declare', 'uservars', 'initialize', 'save', 'finally'):
        same_blocks(got['finally_' if s == 'finally' else s], model[s], f'{what} {s}', lines)
    eq([c['name'] for c in got['comps']], [c['name'] for c in model['comps']], f'{what} component instances')
    for g, w in zip(got['comps'], model['comps']):
        check_instance(g, w, f'{what} instance {w["name"]}', lines)
    eq(got['groups'], groups, f'{what} groups')
    eq(list(got['groups']), list(groups), f'{what} order of groups')


def check_instance(g, w, what, lines=True):
    for k in ('name', 'type', 'removable', 'cpu', 'group'):
        eq(g[k], w[k], f'{what} {k}')
    eq(sorted(p[0] for p in g['params']), sorted(w['params']), f'{what} parameters')
    for n, t in g['params']:
        same_expr(t, w['params'][n], f'{what} parameter {n}')
    for k in ('split', 'when'):
        check((g[k] is None) == (w[k] is None), f'{what} {k}: {g[k]} instead of {w[k]}')
        if w[k] is not None:
            same_expr(g[k], w[k], f'{what} {k}')
    same_blocks(g['extend'], [w['extend']] if w['extend'] else [], f'{what} extend', lines)
    eq(len(g['jumps']), len(w['jumps']), f'{what} jumps')
    for a, b in zip(g['jumps'], w['jumps']):
        same_jump(a, b, f'{what} jump')
    eq(g['metadata'], w['metadata'], f'{what} metadata')
    for k in ('at', 'rot'):
        eq(g[k][1], w[k][1], f'{what} {k} reference')
        for a, b in zip(g[k][0], w[k][0]):
            same_expr(a, b, f'{what} {k}')


# ---------------------------------------------------------------- two instruments
def words(flags):
    return sorted({w for f in flags for w in f.split()})


def joined(blocks):
    """Code is the same code whatever white space surrounds it, in one block or several"""
    return '\n'.join(x for x in (b[0].strip() for b in blocks) if x)


def squeeze(s):
    return '\n'.join(x.strip() for x in s.split('\n') if x.strip())


def same_views(a, b, what, exact_blocks=False, flags='words', included=True, name=True):
    """Instrument *a* (a view) says the same as *b*, which is what is expected"""
    code = (lambda x: [i[0] for i in x]) if exact_blocks else lambda x: squeeze('\n'.join(i[0] for i in x))
    if name:
        eq(a['name'], b['name'], f'{what} name')
    eq([p['name'] for p in a['params']], [p['name'] for p in b['params']], f'{what} parameters')
    for p, q in zip(a['params'], b['params']):
        for k in ('kind', 'unit'):
            eq(p[k], q[k], f'{what} parameter {p["name"]} {k}')
        same_expr(p['default'], q['default'], f'{what} parameter {p["name"]} default')
    eq(a['metadata'], b['metadata'], f'{what} metadata')
    if flags == 'words':
        eq(words(a['flags']), words(b['flags']), f'{what} dependency flags')
    elif flags == 'set':
        eq(sorted(a['flags']), sorted(b['flags']), f'{what} dependency flags')
    if included:
        eq(a['included'], b['included'], f'{what} included instruments')
    for s in ('declare', 'uservars', 'initialize', 'save', 'finally_'):
        eq(code(a[s]), code(b[s]), f'{what} {s}')
    eq([c['name'] for c in a['comps']], [c['name'] for c in b['comps']], f'{what} component instances')
    eq(a['groups'], b['groups'], f'{what} groups')
    for c, d in zip(a['comps'], b['comps']):
        same_instances(c, d, f'{what} instance {d["name"]}', code)


def same_instances(c, d, what, code=lambda x: squeeze('\n'.join(i[0] for i in x)), placement=True):
    for k in ('name', 'type', 'removable', 'cpu', 'group', 'metadata'):
        eq(c[k], d[k], f'{what} {k}')
    for k in ('split', 'when'):
        same_expr(c[k], d[k], f'{what} {k}')
    eq(sorted(p[0] for p in c['params']), sorted(p[0] for p in d['params']), f'{what} parameters')
    p, q = dict(c['params']), dict(d['params'])
    for n in q:
        same_expr(p[n], q[n], f'{what} parameter {n}')
    eq(code(c['extend']), code(d['extend']), f'{what} extend')
    eq([j[:3] for j in c['jumps']], [j[:3] for j in d['jumps']], f'{what} jumps')
    for j, k in zip(c['jumps'], d['jumps']):
        same_expr(j[3], k[3], f'{what} jump condition')
    if placement:
        for k in ('at', 'rot'):
            eq(c[k][1], d[k][1], f'{what} {k} reference')
            for x, y in zip(c[k][0], d[k][0]):
                same_expr(x, y, f'{what} {k}')


def placed_alike(a, b, what):
    """Two instances (objects) are at the same absolute place: by the same statements, or by value"""
    c, d = of_instance(a), of_instance(b)
    try:
        for k in ('at', 'rot'):
            eq(c[k][1], d[k][1], f'{what} {k} reference')
            for x, y in zip(c[k][0], d[k][0]):
                same_expr(x, y, f'{what} {k}')
        return
    except engine.Violation:
        pass
    from vlib import geom
    names = set()
    for i in (a, b):
        for v in (*i.orientation.position(), *i.orientation.rotation('axes')):
            names |= cexpr.names(cexpr.parse(str(v)))
    for env in envs(names)[:3]:
        for f, w in ((lambda i: geom.vec(i.orientation.position(), env), 'position'), (lambda i: geom.mat(i.orientation.rotation('axes'), env), 'rotation')):
            g, h = f(a), f(b)
            check(geom.close(g, h, 1e-6), f'{what} absolute {w} at {env}: {g.tolist()} instead of {h.tolist()}')
