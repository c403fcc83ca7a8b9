"""I02: printing an instrument as text and reading it back gives the same instrument."""
import json

from hypothesis import strategies as st

from vlib import engine, gen_comp, gen_instr, view, lib as L
from vlib.engine import check, eq
from vlib.props import a01, i01

SUBS, sub = engine.registry()
RULE = i01.RULE
ASSUMPTIONS = ['code blocks may gain or lose white space around them and be joined into one; several DEPENDENCY strings may be joined into one',
               'the names of included instruments are only a comment of the printed text'] + i01.ASSUMPTIONS


def reread(text, comps):
    return L.parse_instr(text, comps, source='printed.instr')


def same(a, b, what):
    va, vb = view.of_instr(a), view.of_instr(b)
    same_but_place(va, vb, what)
    for x, y in zip(a.components, b.components):
        view.placed_alike(x, y, f'{what} instance {y.name}')


def same_but_place(va, vb, what):
    comps_a, comps_b = va['comps'], vb['comps']
    view.same_views(dict(va, comps=[]), dict(vb, comps=[]), what, included=False)
    eq([c['name'] for c in comps_a], [c['name'] for c in comps_b], f'{what} component instances')
    for c, d in zip(comps_a, comps_b):
        view.same_instances(c, d, f'{what} instance {d["name"]}', placement=False)


def round_trips(instr, comps, what, times=2):
    """Prints, reads, compares; what is printed of what was read is equivalent again"""
    before = view.of_instr(instr)
    text = str(instr)
    eq(view.of_instr(instr), before, f'{what} is changed by printing it')
    eq(str(instr), text, f'{what} printed twice')
    for k in range(times):
        try:
            again = reread(text, comps)
        except L.SyntaxErrors as e:
            raise engine.Violation(f'{what} is printed as text which is no instrument file: {e}')
        same(again, instr, f'{what}\nprinted as {text}\nread again:')
        text = str(again)
    return again


@sub('printed', st.tuples(gen_instr.program(5, includes=False), i01.STYLES).map(list), quick=330, thorough=25000,
     rule='instruments read from single files')
def printed(case, rec):
    prog, style = case
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, style)
    instr = L.parse_instr(files['main'], comps, source='main.instr')
    round_trips(instr, comps, f'{files["main"]} with {json.dumps(comps)}')
    i01.label(rec, prog)


@sub('with_includes', st.tuples(gen_instr.program(4).filter(lambda p: any('include' in i for i in p['instr']['items'])), i01.STYLES).map(list),
     quick=120, thorough=10000, rule='instruments read from files which include others: all in one printed file')
def with_includes(case, rec):
    prog, style = case
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, style)
    instr = L.parse_instr(files['main'], registries=[L.memory(comps, instrs=dict(files))], source='main.instr')
    round_trips(instr, comps, f'{json.dumps(files)} with {json.dumps(comps)}', times=1)
    i01.label(rec, prog)


@sub('assembled', st.tuples(gen_instr.program(5, includes=False), a01.WAYS).map(list), quick=120, thorough=10000, rule='instruments assembled in Python')
def assembled(case, rec):
    prog, ways = case
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, [0])
    instr, w = a01.assemble(prog, ways, comps=comps)
    instr.determine_groups()
    for k, inst in enumerate(instr.components):         # code in several blocks
        if k % 2 == 0 and inst.extend and '\n' in inst.extend[0].source:
            inst.EXTEND(*inst.extend[0].source.split('\n', 1))
            rec.label(f'extend-{len(inst.extend)}')
    round_trips(instr, comps, f'{json.dumps(files)} with {json.dumps(comps)} assembled as {sorted(w.used)}')
    i01.label(rec, prog)


@sub('parts', gen_instr.program(4, includes=False), quick=90, thorough=5000,
     rule='a parameter or an instance printed on its own')
def parts(prog, rec):
    from mccode_antlr.common import InstrumentParameter
    if i01.zero(prog):
        return
    comps, files, lines = i01.build(prog, [0])
    instr = L.parse_instr(files['main'], comps)
    for p in instr.parameters:
        back = view.of_param(InstrumentParameter.parse(str(p)))
        orig = view.of_param(p)
        for k in ('name', 'kind', 'unit'):
            eq(back[k], orig[k], f'parameter {str(p)!r} read again: {k}')
        view.same_expr(back['default'], orig['default'], f'parameter {str(p)!r} read again: default')
    head = 'DEFINE INSTRUMENT t(' + ', '.join(str(p) for p in instr.parameters) + ')\nTRACE\n'
    text = head + '\n'.join(str(c) for c in instr.components) + '\nEND\n'
    again = reread(text, comps)
    eq([c.name for c in again.components], [c.name for c in instr.components], f'instances of {text}')
    for c, d in zip(again.components, instr.components):
        view.same_instances(view.of_instance(c), view.of_instance(d), f'{text}: instance {d.name}', placement=False)
        view.placed_alike(c, d, f'{text}: instance {d.name}')
    i01.label(rec, prog)
