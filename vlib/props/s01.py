"""S01: splitting an instrument loses nothing and keeps every placement."""
import json
import re

from hypothesis import strategies as st

from vlib import cexpr, cgen, engine, gen_instr, geom, view, lib as L
from vlib.engine import check, eq
from vlib.props import i01, o01

SUBS, sub = engine.registry()
RULE = 'non-trivial: a component after the split is placed relative to one before it, or a group is divided, or a parameter is removed'
ASSUMPTIONS = ['a jump from one part into the other stays as it is written', 'functions in printed and generated code are those of C, with angles in radian',
               'in the MCPL variant the component at the split is replaced, as documented: only its name and place are kept',
               'an orientation which is restated as angles depending on parameters is not determined for values at which its y angle is +-90 degrees',
               'a parameter the name of which only occurs as part of other words can be kept'] + i01.ASSUMPTIONS

MCPL = {'MCPL_output': 'DEFINE COMPONENT MCPL_output SETTING PARAMETERS (string filename=0, string userflag="", int polarisationuse=0)\nDEPENDENCY "-lmcpl_out"\nTRACE %{ %} END',
        'MCPL_input': 'DEFINE COMPONENT MCPL_input SETTING PARAMETERS (string filename=0, verbose=1, repeat=1)\nDEPENDENCY "-lmcpl_in"\nTRACE %{ %} END',
        'My_out': 'DEFINE COMPONENT My_out SETTING PARAMETERS (string filename=0, a=0)\nTRACE %{ %} END',
        'My_in': 'DEFINE COMPONENT My_in SETTING PARAMETERS (string filename=0, verbose=1, a=0)\nTRACE %{ %} END'}
DEG = geom.DEG


def environment(names):
    out = []
    for e in view.envs(names)[:3]:
        out.append(dict({k: (v if isinstance(v, (int, float)) else 1.0) for k, v in e.items()}, DEG2RAD=DEG, RAD2DEG=1 / DEG, PI=geom.math.pi))
    return out


def names_in(instr):
    out = set()
    for c in instr.components:
        for x in (*c.at_relative[0], *c.rotate_relative[0]):
            out |= cexpr.names(cexpr.parse(str(x)))
    return out


def places(instr, env):
    """name: absolute (position, axes), by what AT and ROTATED say, with C functions"""
    done = {}

    def of(c):
        if c.name not in done:
            at, at_ref = c.at_relative
            rot, rot_ref = c.rotate_relative
            done[c.name] = geom.place(geom.vec(at, env, False), of(at_ref) if at_ref is not None else None,
                                      geom.vec(rot, env, False), of(rot_ref) if rot_ref is not None else None)
        return done[c.name]
    for c in instr.components:
        of(c)
    return done


def undetermined(part, instr, locked):
    """Components of a part the orientation of which was restated as angles that depend on parameters, where two of the three
    angles have the same axis for these values: no formula without case distinction has such angles"""
    was = {c.name: c for c in instr.components}
    out = set()
    for c in part.components:
        restated = c.rotate_relative[1] is None and c.name in was and was[c.name].rotate_relative[1] is not None
        symbolic = any(cexpr.names(cexpr.parse(str(x))) for x in c.rotate_relative[0])
        if restated and symbolic and locked(c.name) or any(r is not None and r.name in out for r in (c.at_relative[1], c.rotate_relative[1])):
            out.add(c.name)
    return out


def same_places(part, instr, names, what):
    for env in environment(names | names_in(part)):
        try:
            want = places(instr, env)
        except AssertionError:
            continue
        try:
            got = places(part, env)
        except AssertionError as e:
            raise engine.Violation(f'{what}: {e}')
        unclear = undetermined(part, instr, lambda n: abs(abs(want[n][1][2][0]) - 1) < 1e-9)
        for c in part.components:
            for k, n in ((0, 'position'), (1, 'rotation')):
                if c.name in unclear and (k == 1 or c.at_relative[1] is not None):
                    continue
                check(geom.close(got[c.name][k], want[c.name][k], 1e-6), f'{what}: {n} of {c.name} at {env}: {got[c.name][k].tolist()} instead of {want[c.name][k].tolist()}')


def own_references(part, what):
    for i, c in enumerate(part.components):
        for ref in (c.at_relative[1], c.rotate_relative[1]):
            check(ref is None or any(ref is x for x in part.components[:i]), f'{what}: {c.name} refers to {ref}, which is no earlier component of it')
    eq({k: list(g.ids) for k, g in part.groups.items()}, gen_instr.groups([dict(group=c.group) for c in part.components]), f'{what} groups')
    i01.check_groups(part, what)
    for g in part.groups.values():
        check(all(m is part.components[i] for m, i in zip(g.members, g.ids)), f'{what}: members of group {g.name} are not its components')


def code_words(v):
    text = ' '.join(b[0] for s in ('declare', 'uservars', 'initialize', 'save', 'finally_') for b in v[s])
    text += ' '.join(b[0] for c in v['comps'] for b in c['extend'])
    return text


def expressions(v):
    for c in v['comps']:
        yield from [p[1] for p in c['params']]
        yield from c['at'][0] + c['rot'][0]
        yield from [x for x in (c['split'], c['when']) if x is not None]
        yield from [j[3] for j in c['jumps']]


def same_parameters(part, orig, remove, what, added=(), replaced=None):
    have = [p['name'] for p in part['params'] if p['name'] not in added]
    all_ = [p['name'] for p in orig['params']]
    eq(have, [n for n in all_ if n in have], f'{what} parameters')
    if not remove:
        eq(have, all_, f'{what} parameters')
    by = {p['name']: p for p in orig['params']}
    for p in part['params']:
        if p['name'] in by:
            eq(p, by[p['name']], f'{what} parameter {p["name"]}')
    gone = [n for n in all_ if n not in have]
    texts = list(expressions(part))
    for n in gone:
        words = re.compile(rf'(?<!\w){re.escape(n)}(?!\w)')
        for t in texts:
            if not t.startswith('"'):
                check(not words.search(t), f'{what}: parameter {n} is removed but used in {t}')
        check(not words.search(code_words(part)), f'{what}: parameter {n} is removed but used in code')
    if remove:
        if replaced:  # the parameters are removed before the component is replaced
            texts += expressions(dict(orig, comps=[replaced]))
        for n in have:
            check(n in code_words(dict(part, comps=part['comps'] + [replaced] if replaced else part['comps'])) or any(n in t for t in texts) or any(n in str(x) for c in orig['comps'] for x in c['at'][0] + c['rot'][0]),
                  f'{what}: parameter {n} is not removed but nowhere in it')
    return gone


def same_component(c, d, what):
    view.same_instances(c, d, what, placement=False, code=lambda x: x)


def same_rest(part, orig, what, flags=()):
    """everything but components and parameters"""
    for k in ('metadata', 'included', 'declare', 'uservars', 'initialize', 'save', 'finally_'):
        eq(part[k], orig[k], f'{what} {k}')
    eq(part['flags'], orig['flags'] + list(flags), f'{what} flags')


def statement_kept(c, d, kept, what):
    """references within the part are kept as they are written"""
    for k in ('at', 'rot'):
        if d[k][1] is None or d[k][1] in kept:
            eq(c[k], d[k], f'{what} {k}')
        else:
            eq(c[k][1], None, f'{what} {k} reference, as {d[k][1]} is in the other part')


def do_split(instr, name, how, remove):
    at = instr.get_component(name) if how else name
    with cgen.quiet():
        return instr.split(at, remove_unused_parameters=remove)


def prints(part, comps, names, what):
    try:
        again = L.parse_instr(str(part), comps, source='printed.instr')
    except L.SyntaxErrors as e:
        raise engine.Violation(f'{what} is printed as text which is no instrument file: {e}')
    a, b = view.of_instr(again), view.of_instr(part)
    view.same_views(dict(a, comps=[]), dict(b, comps=[]), f'{what} printed and read', included=False)
    eq([c['name'] for c in a['comps']], [c['name'] for c in b['comps']], f'{what} printed and read: component instances')
    for c, d in zip(a['comps'], b['comps']):
        view.same_instances(c, d, f'{what} printed and read: {d["name"]}', placement=False)
    same_places(again, part, names, f'{what} printed and read')


def judge(instr, parts, k, remove, comps, names, what, mcpl=None):
    """*instr*: a view and the object; the parts divide it at component k"""
    orig, obj = instr
    moved = removed = divided = 0
    for j, part in enumerate(parts):
        w = f'{what} part {j + 1}'
        v = view.of_instr(part)
        own = orig['comps'][:k + 1] if j == 0 else orig['comps'][k:]
        eq([c['name'] for c in v['comps']], [c['name'] for c in own], f'{w} components')
        kept = {c['name'] for c in own}
        for c, d in zip(v['comps'], own):
            if mcpl and d['name'] == orig['comps'][k]['name']:
                if j == 0:
                    statement_kept(c, d, kept, f'{w} {d["name"]}')
                else:
                    eq([c['at'][1], c['rot'][1]], [None, None], f'{w} references of the MCPL input')
                continue
            same_component(c, d, f'{w} {d["name"]}')
            statement_kept(c, d, kept, f'{w} {d["name"]}')
            moved += any(d[x][1] is not None and d[x][1] not in kept for x in ('at', 'rot'))
        if not mcpl:
            same_rest(v, orig, w)
        removed += len(same_parameters(v, orig, remove, w, *((('mcpl_filename',), orig['comps'][k]) if mcpl else ())))
        own_references(part, w)
        divided += any(0 < sum(c['group'] == g for c in own) < sum(c['group'] == g for c in orig['comps']) for g in orig['groups'])
        same_places(part, obj, names, w)
        check(list(part.registries) == list(obj.registries), f'{w} registries')
        prints(part, comps, names, w)
    eq([p.name for p in parts], [orig['name'] + '_first', orig['name'] + '_second'], f'{what} names')
    return moved, removed, divided


def fixed_up(prog):
    """without expressions that could divide by zero"""
    return i01.zero(prog)


programs = gen_instr.program(6, includes=False, copynames=False).filter(lambda p: len(p['instr']['items']) > 1)


@sub('split', st.tuples(programs, st.lists(st.tuples(st.integers(0, 20), st.booleans(), st.booleans(), st.booleans()).map(list), min_size=1, max_size=3)).map(list),
     quick=300, thorough=20000, rule='generated instruments, split up to three times')
def split(case, rec):
    prog, cuts = case
    if fixed_up(prog):
        return
    comps, files, lines = i01.build(prog, [0])
    root = L.parse_instr(files['main'], comps, source='main.instr')
    root.determine_groups()
    names = names_in(root)
    now, hard = root, False
    for at, how, remove, second in cuts:
        k = at % len(now.components)
        before = view.of_instr(now)
        name = now.components[k].name
        what = f'{json.dumps(files)} with {json.dumps(comps)}: {before["name"]} split at {name}{" without unused parameters" if remove else ""}:'
        parts = do_split(now, name, how, remove)
        eq(view.of_instr(now), before, f'{what} the original is changed to')
        moved, removed, divided = judge((before, now), parts, k, remove, comps, names, what)
        for p in parts:
            same_places(p, root, names, f'{what} compared to the undivided instrument')
        hard = hard or moved or removed or divided
        rec.label(*[n for n, x in (('moved', moved), ('removed', removed), ('divided', divided)) if x])
        now = parts[second]
        if len(now.components) < 2:
            break
    rec.nontrivial(hard, key=case)


SITES = ['param', 'vector', 'text', 'at', 'rot', 'split', 'when', 'extend', 'jump', 'declare', 'uservars', 'initialize', 'save', 'finally', 'nowhere']
# shapes in which the name is at different places
SHAPES = ['{0}', '1+{0}', '{0}*2', '-{0}', 'f({0})', 'f(2, {0})', '{0} > 1 ? 2 : 3', 'c > 1 ? {0} : 3', 'c > 1 ? 3 : {0}', '({0})', 'c && {0}', 'arr[{0}]', '2^{0}', '{0} < 2', '!{0}']


@st.composite
def uses(draw):
    n = draw(st.integers(2, 4))
    ps = draw(st.lists(st.tuples(st.sampled_from(SITES), st.integers(0, n - 1), st.sampled_from(SHAPES)).map(list), min_size=1, max_size=9))
    return dict(n=n, uses=ps, refs=[draw(st.sampled_from([[None, None], [-1, None], [-1, -1], [None, -1]])) for _ in range(n)], at=draw(st.integers(0, n - 1)), order=draw(st.integers(0, 5)))


@sub('unused', uses(), quick=250, thorough=8000, rule='every parameter is used at one place, or nowhere: which of them the parts keep')
def unused(case, rec):
    n, at = case['n'], case['at']
    names = [f'{"abp"[k % 3]}{"_x" * (k % 2)}{k}' for k in range(len(case['uses']))]
    sec = {k: [] for k in ('declare', 'uservars', 'initialize', 'save', 'finally')}
    comps = [dict(par='1', vec='{0,0}', txt='"a"', at=['0'] * 3, rot=['0'] * 3, split='', when='', extend=[], jump=[]) for _ in range(n)]
    for k, (site, i, shape) in enumerate(case['uses']):
        name, c = names[k], comps[i]
        e = shape.format(name)
        arithmetic = e if not any(x in shape for x in '?&<>![^f') else f'{name}+1'
        if site == 'param':
            if c['par'] != '1':
                site = case['uses'][k][0] = 'when'
            else:
                c['par'] = e
        if site == 'vector':
            c['vec'] = c['vec'][:-1] + f', {name}}}'
        elif site == 'text':
            c['txt'] = name
        elif site in ('at', 'rot'):
            c[site][k % 3] = arithmetic
        elif site == 'split':
            c['split'] = f'SPLIT {arithmetic}'
        elif site == 'when':
            c['when'] = f'WHEN ({e})'
        elif site == 'extend':
            c['extend'].append(f'x = {e};')
        elif site == 'jump':
            c['jump'].append(f'JUMP c{i} WHEN ({e})')
        elif site in sec:
            sec[site].append(f'/* */ f({e});')
    used = {k: u for k, u in enumerate(case['uses'])}
    # a later use at the same place replaces the earlier one
    for k, (site, i, _) in enumerate(case['uses']):
        for j in range(k):
            s2, i2, _ = case['uses'][j]
            if (site, i) == (s2, i2) and (site in ('text', 'split', 'when') or site in ('at', 'rot') and (k - j) % 3 == 0):
                used[j] = ['nowhere', 0, '']
    text = 'DEFINE INSTRUMENT t(' + ', '.join(f'{"string " if case["uses"][k][0] == "text" else ""}{x}={chr(34) + "s" + chr(34) if case["uses"][k][0] == "text" else 1}' for k, x in enumerate(names)) + ')\n'
    words = dict(declare='DECLARE', uservars='USERVARS', initialize='INITIALIZE', save='SAVE', **{'finally': 'FINALLY'})
    block = lambda s: f'{words[s]} %{{\n' + '\n'.join(sec[s]) + '\n%}\n' if sec[s] else ''
    text += block('declare') + block('uservars') + block('initialize') + 'TRACE\n'
    for i, c in enumerate(comps):
        a, r = (x if i else None for x in case['refs'][i])
        place = lambda x: 'ABSOLUTE' if x is None else f'RELATIVE c{i - 1}'
        text += f'{c["split"]} COMPONENT c{i} = T(par={c["par"]}, vec={c["vec"]}, txt={c["txt"]}) {c["when"]} AT ({",".join(c["at"])}) {place(a)} ROTATED ({",".join(c["rot"])}) {place(r)}\n'
        if c['extend']:
            text += 'EXTEND %{\n' + '\n'.join(c['extend']) + '\n%}\n'
        text += ' '.join(c['jump']) + '\n'
    text += block('save') + block('finally') + 'END'
    lib = dict(T='DEFINE COMPONENT T SETTING PARAMETERS (double par=1, vector vec={0,0}, string txt="") TRACE %{ %} END')
    instr = L.parse_instr(text, lib, source='main.instr')
    # the whole instrument, of which every placement is needed
    keep = [x for k, x in enumerate(names) if used[k][0] != 'nowhere']
    with cgen.quiet():
        count = instr.check_instrument_parameters()
        eq([count, [x.name for x in instr.parameters]], [len(names) - len(keep), names], f'{text}: unused parameters, and the parameters after counting them')
        whole = L.parse_instr(text, lib, source='main.instr')
        count = whole.check_instrument_parameters(remove=True)
        eq([count, [x.name for x in whole.parameters]], [len(names) - len(keep), keep], f'{text}: unused parameters, and the parameters after removing them')
        parts = instr.split('c%d' % at, remove_unused_parameters=True)
    for p, own in zip(parts, (range(0, at + 1), range(at, n))):
        have = [x.name for x in p.parameters]
        need = {names[k] for k, (s, i, _) in used.items() if s in sec or s not in ('nowhere', 'at', 'rot') and i in own}
        for k, (s, i, _) in used.items():
            if s in ('at', 'rot') and i in own:
                need.add(names[k])
        # the placement of earlier components can be needed
        may = {names[k] for k, (s, i, _) in used.items() if s in ('at', 'rot') and i <= max(own)}
        what = f'{text}: {p.name}'
        eq(sorted(need - set(have)), [], f'{what} lost parameters which are used')
        eq(sorted(set(have) - need - may), [], f'{what} kept parameters which are not used')
        eq(have, [x for x in names if x in have], f'{what} order of parameters')
    rec.label(*{s for s, _, _ in case['uses']})
    rec.nontrivial(len(names) >= 3, key=case)


@st.composite
def mcpl_options(draw):
    own = draw(st.booleans())
    return {'name': draw(st.sampled_from((None, None, 'out', '"quoted.mcpl"', 'a/b c.mcpl.gz', 'x"'))),
            'output': 'My_out' if own and draw(st.booleans()) else None, 'input': 'My_in' if own and draw(st.booleans()) else None,
            'out_pars': draw(st.sampled_from((None, None, [['userflag', '"flag"']], [['filename', '"fixed"']]))) if not own else None,
            'in_pars': draw(st.sampled_from((None, None, [['repeat', '3']], [['verbose', '2']], [['filename', '"fixed"'], ['repeat', '2']]))) if not own else None}


@sub('mcpl', st.tuples(programs, st.integers(0, 20), st.booleans(), st.booleans(), mcpl_options()).map(list), quick=200, thorough=12000,
     rule='generated instruments, split into a writer and a reader of MCPL files')
def mcpl(case, rec):
    from mccode_antlr.common import ComponentParameter, Expr
    prog, at, how, remove, options = case
    if fixed_up(prog) or options['name'] == 'x"':
        return
    comps, files, lines = i01.build(prog, [0])
    comps = {**comps, **MCPL}
    instr = L.parse_instr(files['main'], comps, source='main.instr')
    names = names_in(instr)
    k = at % len(instr.components)
    before = view.of_instr(instr)
    name = instr.components[k].name
    what = f'{json.dumps(files)} with {json.dumps(comps)}: MCPL split at {name} with {options}:'
    args = {}
    if options['name'] is not None:
        args['filename'] = options['name']
    for key, arg in (('output', 'output_component'), ('input', 'input_component')):
        if options[key]:
            args[arg] = options[key]
    for key, arg in (('out_pars', 'output_parameters'), ('in_pars', 'input_parameters')):
        if options[key]:
            args[arg] = tuple(ComponentParameter(n, Expr.parse(v)) for n, v in options[key])
    with cgen.quiet():
        parts = instr.mcpl_split(instr.components[k] if how else name, remove_unused_parameters=remove, **args)
    eq(view.of_instr(instr), before, f'{what} the original is changed to')
    moved, removed, divided = judge((before, instr), parts, k, remove, comps, names, what, mcpl=True)
    want = options['name'] or before['name'] + '.mcpl'
    want = want if want.startswith('"') else f'"{want}"'
    for j, (part, comp, key) in enumerate(zip(parts, ('output', 'input'), ('out_pars', 'in_pars'))):
        v = view.of_instr(part)
        w = f'{what} part {j + 1}'
        c = v['comps'][-1 if j == 0 else 0]
        eq([c['name'], c['type']], [name, options[comp] or f'MCPL_{comp}'], f'{w} component at the split')
        pars = {n: t for n, t in c['params']}
        expect = {'filename': 'mcpl_filename', **dict(options[key] or [])}
        if j == 1:
            expect.setdefault('verbose', '0')
        eq(sorted(pars), sorted(expect), f'{w} MCPL parameters')
        for n in expect:
            view.same_expr(pars[n], expect[n], f'{w} MCPL parameter {n}')
        eq([c['group'], c['removable'], c['cpu']], [None, False, False], f'{w} group, removable, cpu of the MCPL component')
        p = [p for p in v['params'] if p['name'] == 'mcpl_filename']
        eq([(x['kind'], x['default']) for x in p], [('string', want)], f'{w} parameter mcpl_filename')
        lib = [] if options[comp] else ['-lmcpl_out' if j == 0 else '-lmcpl_in']
        same_rest(v, before, w, lib)
    rec.label(*[n for n, x in (('moved', moved), ('removed', removed), ('divided', divided)) if x])
    rec.nontrivial(moved or removed or divided, key=case)


SHOW = '''DEFINE COMPONENT Show SETTING PARAMETERS (value=0)
INITIALIZE %{ Coords p_ = POS_A_CURRENT_COMP; Rotation r_; rot_copy(r_, ROT_A_CURRENT_COMP);
printf("at %s %.12g %.12g %.12g", NAME_CURRENT_COMP, p_.x, p_.y, p_.z);
{ int i_, j_; for (i_ = 0; i_ < 3; i_++) for (j_ = 0; j_ < 3; j_++) printf(" %.12g", r_[i_][j_]); } printf(" %.12g\\n", value); %}
TRACE %{ %} END'''


@st.composite
def placed(draw):
    comps = draw(o01.chain(True))
    calls = ['sin(a)', 'cos(DEG2RAD*b)', '2*sqrt(fabs(c))', 'atan2(a, 1)', 'fabs(-d)']
    for c in comps:
        for k in ('at', 'rot'):
            if c[k] is not None and draw(st.integers(0, 3)) == 0:
                c[k][draw(st.integers(0, 2))] = draw(st.sampled_from(calls))
    return {'comps': comps, 'at': draw(st.integers(0, 5)), 'remove': draw(st.booleans()),
            'values': [draw(st.sampled_from(['0', '1', '-2', '12.5', '90', '-33', '180', '0.75'])) for _ in range(4)]}


def shown(out):
    return {l.split()[1]: [float(x) for x in l.split()[2:]] for l in out.splitlines() if l.startswith('at ')}


@sub('simulated', placed(), quick=60, thorough=2500, rule='positions which compiled simulations of the parts report, for values of the parameters')
def simulated(case, rec):
    comps = {'Show': SHOW}
    text = o01.text(case['comps']).replace('Thing()', 'Show(value=a+2*c)')
    instr = L.parse_instr(text, comps)
    k = case['at'] % len(instr.components)
    with cgen.quiet():
        parts = instr.split(instr.components[k].name, remove_unused_parameters=case['remove'])
    what = f'{text} split at {instr.components[k].name} with {case["values"]}'
    values = dict(zip('abcd', case['values']))
    run = lambda i: shown(cgen.simulate(i, [f'{p.name}={values[p.name]}' for p in i.parameters] + ['-n1']))
    want = run(instr)
    eq(len(want), len(instr.components), f'{what}: components which report')
    for j, p in enumerate(parts):
        got = run(p)
        eq(list(got), [c.name for c in (instr.components[:k + 1] if j == 0 else instr.components[k:])], f'{what}: components of part {j + 1} which report')
        unclear = undetermined(p, instr, lambda n: any(abs(abs(want[n][m]) - 1) < 1e-9 for m in (5, 9)))
        for n in got:
            if n in unclear:
                rec.label('undetermined')
                continue
            check(geom.close(got[n], want[n], 1e-6), f'{what}: part {j + 1} has {n} at {got[n]} instead of {want[n]}')
    kept = {c.name for c in parts[1].components}
    rec.label('moved' if k else 'whole')
    rec.nontrivial(any(r is not None and r.name not in kept for c in instr.components[k:] for r in (c.at_relative[1], c.rotate_relative[1])), key=case)
