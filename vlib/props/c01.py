"""C01: parsing a component definition is faithful, COPY and EXTEND inherit correctly."""
import json

from hypothesis import strategies as st

from vlib import cexpr, engine, gen_comp, gen_expr, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = ('non-trivial: at least one definition has two or more sections, and one is a COPY of another or has a section which is; '
        '(parameter sub-check: at least one parameter has a default which is not a plain number)')
ASSUMPTIONS = ['a parameter is not stated again in a definition made as a COPY',
               'identifiers are no keywords of the grammar in any of its spellings',
               'a metadata name which contains a blank may be kept in quotation marks']

STYLES = st.lists(st.lists(st.integers(0, 20), min_size=1, max_size=12), min_size=1, max_size=3)
DTYPE = dict(bare='float', double='float', int='int', string='str', charp='str', vector='float', doublep='float', intp='int')
ENVS = gen_expr.fixed_envs(['a', 'b', 'c'])


def same_value(text, source, what):
    """Two expressions denote the same value"""
    try:
        got, want = cexpr.parse(text), cexpr.parse(source)
    except cexpr.BadSyntax as e:
        raise engine.Violation(f'{what}: {text!r} is no expression ({e})')
    n = 0
    for env in ENVS:
        try:
            w = cexpr.evaluate(want, env)
        except cexpr.Undefined:
            continue
        try:
            g = cexpr.evaluate(got, env)
        except (cexpr.Undefined, KeyError) as e:
            raise engine.Violation(f'{what}: {text!r} has no value where {source!r} is {w} at {env}')
        check(cexpr.same(g, w), f'{what}: {text!r} is {g} but {source!r} is {w} at {env}')
        n += 1
    return n


def check_param(p, spec, what):
    what = f'{what} parameter {spec["name"]}'
    eq(p.name, spec['name'], what)
    v, d, kind = p.value, spec['default'], spec['kind']
    eq(v.data_type.name, DTYPE[kind], f'{what} type')
    vector = kind in ('vector', 'doublep', 'intp')
    eq(bool(v.is_vector), vector, f'{what} is a vector')
    if d is None:
        check(not v.has_value, f'{what} has the default {v} but none is stated')
        return
    if kind in ('string', 'charp'):
        if d in ('NULL', '0'):
            check(str(v) in ('NULL', '0'), f'{what} has the default {v} instead of {d}')
        else:
            eq(str(v), d, f'{what} default')
        return
    if vector:
        if isinstance(d, list):
            got = v.expr[0].value
            check(isinstance(got, (list, tuple)) and len(got) == len(d), f'{what} has the default {got!r} instead of {d}')
            for g, w in zip(got, d):
                same_value(str(g), w, f'{what} default element')
        elif d in ('NULL', '0'):
            check(str(v) in ('NULL', '0'), f'{what} has the default {v} instead of {d}')
        else:
            eq(str(v), d, f'{what} default')
        return
    src = gen_comp.default_text(spec)
    check(str(v) != 'None', f'{what} has no default but {src} is stated')
    same_value(str(v), src, f'{what} default')


def zero_divisor(lib):
    from vlib.props.e01 import const_zero_divisor
    for c in lib:
        for k in ('setting', 'define', 'output'):
            for p in c[k]:
                d = p['default']
                if isinstance(d, list) and d and d[0] == 'e' and len(d) == 2 and const_zero_divisor(cexpr.avoid_quirks(d[1])):
                    return True
    return False


def check_comp(c, name, m, what):
    eq(c.name, name, f'{what} name')
    for k in ('define', 'setting', 'output'):
        got = getattr(c, k)
        eq([p.name for p in got], [p['name'] for p in m[k]], f'{what} {k} parameters')
        for p, s in zip(got, m[k]):
            check_param(p, s, f'{what} {k}')
    for p in m['define'] + m['setting']:
        check(c.has_parameter(p['name']), f'{what} does not know its parameter {p["name"]}')
        eq(c.get_parameter(p['name']).name, p['name'], f'{what} get_parameter')
    check(not c.has_parameter('no_such') and c.get_parameter('no_such') is None, f'{what} knows a parameter it does not have')
    eq(bool(c.acc), m['acc'], f'{what} can run accelerated')
    if m['category'] is not None:
        eq(c.category, m['category'], f'{what} category')
    check(c.category is not None, f'{what} has no category')
    unq = lambda s: s[1:-1] if ' ' in s and s[:1] == '"' else s
    eq([[x.mimetype, unq(x.name), x.value] for x in c.collect_metadata()], m['metadata'], f'{what} metadata')
    for s in gen_comp.SECTIONS:
        got = getattr(c, gen_comp.FIELD[s])
        eq([b.source for b in got], [x[0] for x in m['sections'][s]], f'{what} {s} section')
        eq([b.line for b in got], [x[2] for x in m['sections'][s]], f'{what} {s} line numbers')
        for b, x in zip(got, m['sections'][s]):
            check(x[1] in str(b.filename), f'{what} {s} says it is from {b.filename}, it is from {x[1]}')


def reader(lib, styles):
    from mccode_antlr.reader import Reader
    texts = {c['name']: gen_comp.text(c, styles[i % len(styles)])[0] for i, c in enumerate(lib)}
    return Reader(registries=[L.memory(texts)]), texts


@sub('library', st.tuples(gen_comp.library(1, 4), STYLES, st.permutations(list(range(4)))).map(list), quick=420, thorough=30000,
     rule='libraries of one to four definitions which copy one another, read in any order')
def library(case, rec):
    lib, styles, order = case
    lib = gen_comp.consistent(lib)
    if zero_divisor(lib):
        return
    model = gen_comp.resolve(lib, styles)
    r, texts = reader(lib, styles)
    names = [lib[i]['name'] for i in order if i < len(lib)]
    for n in names:
        check_comp(r.get_component(n), n, model[n], f'{n} of {json.dumps(texts)}')
    for n in names:    # reading others has not changed it
        check_comp(r.get_component(n), n, model[n], f'after reading all, {n} of {json.dumps(texts)}')
    deps = {c['name']: c['dependency'] for c in lib if c['dependency'] is not None}
    eq(sorted(set(r.c_flags)), sorted(set(deps.values())), f'dependency flags of {json.dumps(texts)}')
    copied = any(c['copy'] or any(s['copy'] for s in c['sections'].values()) for c in lib)
    rec.label('copied-definition' if any(c['copy'] for c in lib) else 'no-copied-definition')
    rec.label('copied-section' if any(s['copy'] for c in lib for s in c['sections'].values()) else 'no-copied-section')
    rec.label('restated' if any(c['copy'] and any(model[c['copy']]['sections'][s] for s in c['sections']) for c in lib) else 'not-restated')
    rec.nontrivial(copied and any(len(c['sections']) >= 2 for c in lib), key=texts)


@sub('chain', st.tuples(gen_comp.chain(), STYLES, st.permutations(list(range(6)))).map(list), quick=420, thorough=20000,
     rule='four to six definitions of sections which copy and extend one another')
def chain(case, rec):
    lib, styles, order = case
    model = gen_comp.resolve(lib, styles)
    r, texts = reader(lib, styles)
    names = [lib[i]['name'] for i in order if i < len(lib)]
    for n in names + names:
        check_comp(r.get_component(n), n, model[n], f'{n} of {json.dumps(texts)}')
    longest = max(len(v) for m in model.values() for v in m['sections'].values())
    rec.label(f'blocks={longest}')
    rec.nontrivial(longest >= 3, key=texts)


@sub('single', st.tuples(gen_comp.library(1, 1), STYLES).map(list), quick=300, thorough=20000,
     rule='single definitions: every parameter kind, metadata, category, dependency')
def single(case, rec):
    lib, styles = case
    if zero_divisor(lib):
        return
    lib = gen_comp.consistent(lib)
    model = gen_comp.resolve(lib, styles)
    r, texts = reader(lib, styles)
    n = lib[0]['name']
    check_comp(r.get_component(n), n, model[n], f'{n} of {json.dumps(texts)}')
    rec.nontrivial(any(p['default'] not in (None, '0', '1', '10') for k in ('setting', 'define', 'output') for p in lib[0][k]), key=texts)


@sub('instances', st.tuples(gen_comp.library(2, 3), STYLES, st.integers(0, 1)).map(list), quick=120, thorough=6000,
     rule='definitions read by way of an instrument which uses them; what is done to one does not show in another')
def instances(case, rec):
    lib, styles, which = case
    lib = gen_comp.consistent(lib)
    if zero_divisor(lib):
        return
    model = gen_comp.resolve(lib, styles)
    texts = {c['name']: gen_comp.text(c, styles[i % len(styles)])[0] for i, c in enumerate(lib)}
    body = '\n'.join(f'COMPONENT i{k} = {c["name"]}() AT (0,0,{k}) ABSOLUTE' for k, c in enumerate(lib))
    instr = L.parse_instr(f'DEFINE INSTRUMENT t()\nTRACE\n{body}\nEND\n', texts)
    for inst, c in zip(instr.components, lib):
        check_comp(inst.type, c['name'], model[c['name']], f'{c["name"]} of {json.dumps(texts)}')
        eq(bool(inst.cpu), not model[c['name']]['acc'], f'instance of {c["name"]} must stay on the CPU')
    # change one definition in Python: nothing else changes
    which = which % len(lib)
    victim = instr.components[which].type
    for b in victim.trace + victim.share + victim.declare:
        b.source += '/* changed */'
    for p in victim.setting:
        p.value = type(p.value).float(17.25)
    for k, c in enumerate(lib):
        if k != which and not (c['copy'] or any(s['copy'] for s in c['sections'].values())
                               or any(d['copy'] == c['name'] or any(s['copy'] == c['name'] for s in d['sections'].values()) for d in lib)):
            check_comp(instr.components[k].type, c['name'], model[c['name']], f'{c["name"]} after changing {lib[which]["name"]}')
    rec.nontrivial(any(len(c['sections']) >= 2 for c in lib) and any(c['copy'] or any(s['copy'] for s in c['sections'].values()) for c in lib), key=texts)
