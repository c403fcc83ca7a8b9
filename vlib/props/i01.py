"""I01: parsing an instrument file yields exactly the instrument it describes."""
import json
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from vlib import cexpr, engine, gen_comp, gen_instr, view, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: two or more component instances with at least three different optional clauses (or a COPY, a PREVIOUS or an include) among them'
ASSUMPTIONS = ['a COPY of an instance does not inherit REMOVABLE, CPU and SPLIT (as in McCode); a restated EXTEND or JUMP replaces the inherited one',
               'an included instrument refers to instances of the one that includes it, not to those of one further out (the code says so)',
               'metadata names of included instruments are their own; instance names made by COPY occur only in the outermost file',
               'identifiers are no keywords of the grammar in any of its spellings']

STYLES = st.lists(st.integers(0, 20), min_size=1, max_size=12)


def build(prog, style):
    comps = {c['name']: gen_comp.text(c, style)[0] for c in prog['comps']}
    files, lines = gen_instr.text(prog['instr'], style)
    return comps, files, lines


def zero(prog):
    from vlib.props.c01 import zero_divisor
    return zero_divisor(prog['comps'])


def flags_of(prog, model):
    by = {c['name']: c for c in prog['comps']}
    return model['flags'] + [by[n]['dependency'] for n in gen_instr.types_read(prog) if by[n]['dependency'] is not None]


def judge(instr, prog, lines, what, with_lines=True):
    model = gen_instr.resolve(prog, lines)
    view.check_instr(instr, model, gen_instr.groups(model['comps']), what, with_lines)
    eq(sorted(set(instr.flags)), sorted(set(flags_of(prog, model))), f'{what} dependency flags')
    check_groups(instr, what)
    check_questions(instr, what)
    return model


def check_groups(instr, what):
    for k, (name, g) in enumerate(instr.groups.items()):
        eq((g.name, g.index), (name, k), f'{what} group')
        eq([m.name for m in g.members], [instr.components[i].name for i in g.ids], f'{what} members of group {name}')
    for i, c in enumerate(instr.components):
        check((c.group is None) or any(i in g.ids for g in instr.groups.values()), f'{what} {c.name} is in no group')


def check_questions(instr, what):
    """What an instrument answers about its components and parameters"""
    names = [c.name for c in instr.components]
    for k, c in enumerate(instr.components):
        check(instr.get_component(c.name) is c or c.name == 'PREVIOUS', f'{what} another component than {c.name} is found')
        check(instr.has_component_named(c.name), f'{what} {c.name} is not found')
        check(instr.last_component(len(names) - k) is c, f'{what} {c.name} is not {len(names) - k} from the end')
        kind = c.type.category
        same = [x.name for x in instr.components if x.type.category == kind]
        found = instr.get_component_names_by_category(kind)
        eq([x for x in found if x in same], same, f'{what} components of category {kind!r}')
        eq([x for x in found if kind not in instr.get_component(x).type.category], [], f'{what} components of another category than {kind!r}')
        given = {p.name: p for p in c.parameters}
        for p in tuple(c.type.define) + tuple(c.type.setting):
            check(c.defines_parameter(p.name) == (p.name in given), f'{what} {c.name} does not know whether {p.name} is given')
            check(c.get_parameter(p.name) is given.get(p.name, c.type.get_parameter(p.name)), f'{what} parameter {p.name} of {c.name}')
            check(c.type.get_parameter(p.name) is p, f'{what} parameter {p.name} of {c.type.name}')
        check(c.get_parameter('no_such') is None and not c.defines_parameter('no_such'), f'{what} {c.name} has a parameter no_such')
    fixed = [c.name for c in instr.components if not c.removable]
    for k, n in enumerate(reversed(fixed)):
        eq(instr.last_component(k + 1, removable_ok=False).name, n, f'{what} {k + 1} fixed components from the end')
    for ask in (lambda: instr.last_component(len(names) + 1), lambda: instr.last_component(len(fixed) + 1, removable_ok=False), lambda: instr.get_component('no_such')):
        try:
            found = ask()
        except RuntimeError:
            continue
        check(False, f'{what} {found} is found instead of nothing')
    check(not instr.has_component_named('no_such'), f'{what} has a component no_such')
    for p in instr.parameters:
        check(instr.has_parameter(p.name) and instr.get_parameter(p.name) is p, f'{what} parameter {p.name} is not found')
    check(not instr.has_parameter('no_such') and instr.get_parameter('no_such', 7) == 7, f'{what} has a parameter no_such')


def label(rec, prog):
    f = gen_instr.features(prog)
    rec.label(*sorted(f))
    n = len(gen_instr.resolve(prog)['comps'])
    clauses = f & {'when', 'group', 'extend', 'jumps', 'split', 'removable', 'cpu', 'metadata', 'rot'}
    rec.nontrivial(n >= 2 and (len(clauses) >= 3 or f & {'copy', 'previous', 'include'}), key=prog)


@sub('instrument', st.tuples(gen_instr.program(5, includes=False), STYLES).map(list), quick=420, thorough=30000,
     rule='single files')
def instrument(case, rec):
    prog, style = case
    if zero(prog):
        return
    comps, files, lines = build(prog, style)
    instr = L.parse_instr(files['main'], comps, source='main.instr')
    judge(instr, prog, lines, f'{files["main"]} with {json.dumps(comps)}:')
    label(rec, prog)


@sub('included', st.tuples(gen_instr.program(5).filter(lambda p: any('include' in i for i in p['instr']['items'])), STYLES).map(list),
     quick=240, thorough=20000, rule='files which include others, nested too')
def included(case, rec):
    prog, style = case
    if zero(prog):
        return
    comps, files, lines = build(prog, style)
    reg = L.memory(comps, instrs={k: v for k, v in files.items()})
    instr = L.parse_instr(files['main'], registries=[reg], source='main.instr')
    judge(instr, prog, lines, f'{json.dumps(files)} with {json.dumps(comps)}:')
    label(rec, prog)


@sub('parameters', st.tuples(gen_instr.program(3), STYLES).map(list), quick=120, thorough=8000,
     rule='reading only the parameters of a file agrees with reading all of it')
def parameters(case, rec):
    from mccode_antlr.loader.loader import parse_mccode_instr_parameters
    prog, style = case
    if zero(prog):
        return
    comps, files, lines = build(prog, style)
    got = [view.of_param(p) for p in parse_mccode_instr_parameters(files['main'])]
    want = prog['instr']['params']
    what = f'{files["main"]}:'
    eq([p['name'] for p in got], [p['name'] for p in want], f'{what} parameters')
    for g, w in zip(got, want):
        view.same_param(g, w, what)
    rec.nontrivial(len(want) >= 2 and len(prog['instr']['items']), key=files['main'])


@sub('files', st.tuples(gen_instr.program(4), STYLES, st.integers(0, 2)).map(list), quick=60, thorough=3000,
     rule='as files in a folder, read by the functions of the loader')
def from_files(case, rec):
    import os
    from mccode_antlr.loader import loader
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    prog, style, how = case
    prog = json.loads(json.dumps(prog).replace('\\r', ' '))   # line ends of a text file are not kept
    if zero(prog):
        return
    comps, files, lines = build(prog, style)
    with tempfile.TemporaryDirectory() as tmp:
        for n, t in comps.items():
            Path(tmp, f'{n}.comp').write_bytes(t.encode())
        for n, t in files.items():
            Path(tmp, f'{n}.instr').write_bytes(t.encode())
        reg = LocalRegistry('here', tmp)
        if how == 0:
            instr = Reader(registries=[reg]).get_instrument(Path(tmp, 'main.instr'))
        elif how == 1:
            instr = Reader(registries=[reg]).get_instrument('main')
        else:
            instr = loader.parse_mccode_instr(files['main'], [reg], 'main.instr')
        judge(instr, prog, lines, f'{json.dumps(files)} with {json.dumps(comps)}:', with_lines=False)
    rec.label(f'way-{how}')
    label(rec, prog)


@sub('long', st.tuples(st.integers(9, 30), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 99), st.integers(0, 5), st.integers(0, 99), st.integers(0, 5)).map(list), min_size=4, max_size=12),
                       st.integers(0, 12)).map(list), quick=120, thorough=4000,
     rule='nine components or more: names made by COPY and MYSELF, references to and jumps over many')
def long(case, rec):
    """One row of choices for each component, cyclic"""
    n, rows, split = case
    names, lines, wanted = [], [], []
    for i in range(n):
        how, a, ref, b, jump = rows[i % len(rows)]
        a, b = a + i, b + 3 * i
        if how == 0 and names:
            base = names[a % len(names)]
            name, text = f'{base}_{i + 1}', f'COPY({base})'
        elif how == 1:
            name, text = f'Comp_{i + 1}', ['COPY', 'MYSELF'][a % 2]
        else:
            name = text = f'n{i + 1}' if how < 4 else f'c_{i}'
        if name in names:
            name = text = f'other{i}'
        at = None
        if ref == 0 and names:
            at = names[b % len(names)]
            reftext = f'RELATIVE {at}'
        elif ref == 2 and b % 5 == 4 and not split:
            reftext = f'RELATIVE PREVIOUS({len(names) + 1 + a % 3})'  # there is none: ABSOLUTE
        elif ref in (1, 2) and names:
            k = b % len(names) + 1
            at = names[-k]
            reftext = f'RELATIVE PREVIOUS({k})' if k > 1 or b % 3 else 'RELATIVE PREVIOUS'
        else:
            reftext = 'ABSOLUTE'
        line = f'COMPONENT {text} = Arm() AT (0, 0, {i}.5) {reftext}'
        if how == 3:
            line += f' GROUP g{a % 4}'
        target = None
        if jump in (0, 1):
            k = b % n + 1
            target = k if jump == 0 else -k
            line += f' JUMP {"NEXT" if jump == 0 else "PREVIOUS"}({k}) ITERATE {i + 2}'
        elif jump == 2:
            target = 0
            line += f' JUMP MYSELF ITERATE {i + 2}'
        names.append(name)
        wanted.append([name, f'{i}.5', at, target, f'g{a % 4}' if how == 3 else None])
        lines.append(line)
    comps = {'Arm': 'DEFINE COMPONENT Arm TRACE %{ %} END'}
    files = {}
    if split and split < n and not any(f'COPY' in x or 'MYSELF =' in x for x in lines):
        files = {'inc': f'DEFINE INSTRUMENT inc() TRACE {chr(10).join(lines[:split])} END'}
        lines = ['%include "inc.instr"'] + lines[split:]
    text = 'DEFINE INSTRUMENT main_i() TRACE\n' + '\n'.join(lines) + '\nEND'
    got = L.parse_instr(text, registries=[L.memory(comps, instrs=files)])
    what = f'{text} {files or ""}:'
    eq([c.name for c in got.components], names, f'{what} names')
    for c, (name, z, at, target, group) in zip(got.components, wanted):
        eq(float(str(c.at_relative[0].z)), float(z), f'{what} {name} position')
        eq(c.at_relative[1].name if c.at_relative[1] else None, at, f'{what} {name} is placed relative to')
        check(c.at_relative[1] is None or c.at_relative[1] is [x for x in got.components if x.name == at][0], f'{what} {name} refers to another {at}')
        eq([j.relative_target for j in c.jump], [] if target is None else [target], f'{what} {name} jumps to')
        eq(c.group, group, f'{what} {name} group')
    members = {}
    for k, w in enumerate(wanted):
        if w[4]:
            members.setdefault(w[4], []).append(k)
    eq({g.name: list(g.ids) for g in got.groups.values()}, members, f'{what} groups')
    rec.label(f'{n // 10}0', 'included' if files else 'one-file')
    rec.nontrivial(n >= 10 and any(w[2] for w in wanted), key=case)
