"""T06: C declarations are understood: every declared variable, with its right type."""
import re

from hypothesis import strategies as st

from vlib import cgen, engine, gen_decl, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least three variables, of which one is an array, a pointer, a structure or initialised'
ASSUMPTIONS = ['declarations are valid C; function prototypes and functions inside of the block are not part of the inputs (a stable test fixes that prototypes are reported)',
               'gcc decides whether two types are the same and what initial values are']


def norm(s):
    """without comments, and white space only where it separates words"""
    s = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//[^\n]*', lambda m: m.group(0) if m.group(0)[0] in '"\'' else ' ', s, flags=re.S)
    return ' '.join(re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|[^\w\s]', s))


@sub('extract', gen_decl.block(hi=8), quick=600, thorough=30000, rule='declaration blocks: names, types, pointers, dimensions and initial values')
def extract(items, rec):
    from mccode_antlr.translators.c_listener import extract_c_declared_variables_and_defined_types
    text, want = gen_decl.text(items), gen_decl.variables(items)
    with cgen.quiet():
        got, types = extract_c_declared_variables_and_defined_types(text)
    what = f'{text!r}:'
    eq([d.name for d in got], [v['name'] for v in want], f'{what} names')
    for d, v in zip(got, want):
        about = f'{what} {v["name"]}'
        eq(norm(d.dtype), norm(v['specs']), f'{about} type')
        eq(None if d.init is None else norm(d.init), None if v['init'] is None else norm(v['init']), f'{about} initial value')
        if v['simple']:
            eq((d.pointer or '').count('*'), v['pointer'], f'{about} pointer depth')
            e = None if d.elements is None else [norm(str(x)) if x else '' for x in d.elements]
            w = None if v['elements'] is None else [norm(str(int(x))) if re.fullmatch(r'\d+', x) else norm(x) for x in v['elements']]
            eq(e, w, f'{about} dimensions')
        check(d.copy() == d, f'{about} differs from its copy')
        renamed = d.copy(suffix='7')
        eq(renamed.name, v['name'] + '_7', f'{about} renamed')
        eq(renamed.copy(), renamed, f'{about} renamed copy')
    for i, a in enumerate(got):
        for j, b in enumerate(got):
            check((a == b) == (i == j), f'{what} {a} and {b} are equal')
    named = {t for i in items for t in i.get('types', [])}
    check(named <= set(types), f'{what} types {types}, not {named}')
    complex_ = [v for v in want if v['form'] != 'plain' or v['init'] is not None or v['show'] == 's']
    rec.label(*(v['form'] for v in want))
    rec.nontrivial(len(want) > 2 and bool(complex_), key=text)


def show(v, expr, label, out='printf'):
    """C code which prints the value"""
    name = v['name']
    p = f'{out}("{label} {name} %d", (int) sizeof({expr}));'
    n = f'(sizeof({expr}) / sizeof({v["base"]}))'
    if v['show'] in 'if':
        cast, fmt = ('(long long)', '%lld') if v['show'] == 'i' else ('(double)', '%.17g')
        return f'{{ {p} __typeof__(({v["base"]}) 0) *show_p = (void *) &{expr}; for (int i = 0; i < (int) {n}; i++) printf(" {fmt}", {cast} show_p[i]); printf("\\n"); }}'
    if v['show'] == 's':
        return f'{{ {p} char *show_p = (void *) &{expr}; for (int i = 0; i < (int) sizeof({expr}); i += sizeof(T_{name})) printf(" %d %.17g", ((T_{name} *)(show_p + i))->a, ((T_{name} *)(show_p + i))->b); printf("\\n"); }}'
    if v['show'] == 'c':
        return f'{{ {p} printf(" [%s]\\n", {expr}); }}'
    if v['form'] in ('fp', 'fparray') and v['init'] and 'NULL' not in v['init']:
        return f'{{ {p} oper_t *show_p = (void *) &{expr}; printf(" %d\\n", show_p[0](3, 4)); }}'
    return f'{{ {p} void **show_p = (void *) &{expr}; printf(" %s\\n", *show_p ? "set" : "NULL"); }}'


def element_types(vs):
    """names of the element types of structures"""
    out = []
    for v in vs:
        if v['show'] == 's':
            fields = 'int a, pad[3]; double b;' if 'pad[3]' in v['base'] else 'int a; double b;'
            out.append(f'typedef struct {{ {fields} }} T_{v["name"]};')
    return '\n'.join(out)


def plain(v):
    """the base of the type can be written in an expression without defining it again"""
    return '{' not in v['base']


def same_type(v, expr, name):
    if plain(v):
        return f'__builtin_types_compatible_p(__typeof__({expr}), __typeof__({name}))'
    return f'(sizeof({expr}) == sizeof({name}))'


def fix_base(v):
    return dict(v, base='int') if v['base'].startswith('enum') else v


@sub('members', st.lists(gen_decl.block(), min_size=1, max_size=4), quick=150, thorough=6000, rule='structure members made from declarations have the same types, as decided by gcc')
def members(blocks, rec):
    from mccode_antlr.translators.c_listener import extract_c_declared_variables
    functions, expected, told = [], [], []
    for k, items in enumerate(blocks):
        text, want = gen_decl.text(items), gen_decl.variables(items)
        with cgen.quiet():
            got = extract_c_declared_variables(text)
            lines = [d.as_struct_member() + ';' for d in got]
            renamed = [d.copy(suffix='9').as_struct_member() + ';' for d in got]
        what = f'{text!r} has members {lines}:'
        told.append(what)
        eq([d.name for d in got], [v['name'] for v in want], f'{what} names')
        # types with a body are defined again, which C allows in another scope only
        body = lambda ls: '\n  '.join(ls)
        c = f'int test{k}(void) {{\n{text}\n{{\n  struct members {{ int first; {body(lines)} }};\n'
        c += ''.join(f'  printf("{k} {v["name"]} %d\\n", (int) {same_type(v, "((struct members *) 0)->" + v["name"], v["name"])});\n' for v in want)
        c += f'  {{ struct renamed {{ int first; {body(renamed)} }};\n'
        c += ''.join(f'  printf("{k} {v["name"]}_9 %d\\n", (int) {same_type(v, "((struct renamed *) 0)->" + v["name"] + "_9", v["name"])});\n' for v in want)
        functions.append(c + '  }\n}\nreturn 0;\n}\n')
        expected += [f'{k} {v["name"]} 1' for v in want] + [f'{k} {v["name"]}_9 1' for v in want]
        rec.nontrivial(len(want) > 2 and any(v['form'] != 'plain' for v in want), key=text)
    c = f'#include <stdio.h>\n#include <stddef.h>\n{gen_decl.PRELUDE}\n' + '\n'.join(functions) + '\nint main(void) {\n' + ''.join(f'test{k}();\n' for k in range(len(blocks))) + 'return 0;\n}\n'
    what = ' and '.join(told)
    with cgen.scratch() as d:
        try:
            out = cgen.run(cgen.compile_(c, d))
        except cgen.CompileError as e:
            raise engine.Violation(f'{what} does not compile: {e}')
    eq(out.splitlines(), expected, what)


def reference(prelude, text, vs, where):
    c = f'#include <stdio.h>\n#include <stddef.h>\n{prelude}\n{element_types(vs)}\n{text}\nint main(void) {{\n' + '\n'.join(show(v, v['name'], where) for v in vs) + '\nreturn 0; }\n'
    with cgen.scratch() as d:
        try:
            return cgen.run(cgen.compile_(c, d)).splitlines()
        except cgen.CompileError as e:
            raise engine.HarnessError(f'{c} {e}')


@sub('simulated', st.tuples(gen_decl.block(), gen_decl.block(False, [n + '2' for n in gen_decl.NAMES], False, 4, False), gen_decl.block(False, [n + '3' for n in gen_decl.NAMES], False, 3, False), st.booleans()).map(list),
     quick=130, thorough=6000, rule='the declarations of a component and the user variables of component and instrument in a simulation')
def simulated(case, rec):
    items, own, user, mcstas = case
    text, vs = gen_decl.text(items), [fix_base(v) for v in gen_decl.variables(items)]
    own_text, own_vs = gen_decl.text(own), gen_decl.variables(own)
    user_text, user_vs = gen_decl.text(user), gen_decl.variables(user)
    want = reference(gen_decl.PRELUDE, text, vs, '@v')
    code = '\n'.join(show(v, v['name'], '@v') for v in vs)
    types = []
    for n in (1, 2):
        types += [f'printf("@u {v["name"]}_{n} %d\\n", (int) __builtin_types_compatible_p(__typeof__(((_class_particle *) 0)->{v["name"]}_{n}), __typeof__({v["name"]})));' for v in own_vs]
    types += [f'printf("@u {v["name"]} %d\\n", (int) __builtin_types_compatible_p(__typeof__(((_class_particle *) 0)->{v["name"]}), __typeof__({v["name"]})));' for v in user_vs]
    comp = f'''DEFINE COMPONENT Test
SHARE %{{
{element_types(vs)}
%}}
USERVARS %{{
{own_text}
%}}
DECLARE %{{
{text}
%}}
INITIALIZE %{{
{code}
%}}
TRACE %{{ x += 1; %}}
END
'''
    # types used by USERVARS have to be known before the particle
    define = gen_decl.PRELUDE.replace('\n', '\n')
    instr = f'''DEFINE INSTRUMENT verif()
USERVARS %{{
{user_text}
%}}
INITIALIZE %{{
{{
{own_text}
{user_text}
{chr(10).join(types)}
}}
%}}
TRACE
COMPONENT c1 = Test() AT (0,0,0) ABSOLUTE
COMPONENT c2 = Test() AT (0,0,1) ABSOLUTE
END
'''
    what = f'{comp} {instr}'
    parsed = L.parse_instr(instr, {'Test': comp})
    source = '#include <stdio.h>\n#include <stddef.h>\n' + define + cgen.source(parsed, mcstas)
    with cgen.scratch() as d:
        try:
            out = cgen.run(cgen.compile_(source, d), ['-n1']).splitlines()
        except cgen.CompileError as e:
            raise engine.Violation(f'{what} does not compile: {e}')
    eq([l for l in out if l.startswith('@v')], want * 2, f'{what} values')
    eq([l for l in out if l.startswith('@u')], [f'@u {v["name"]}_{n} 1' for n in (1, 2) for v in own_vs] + [f'@u {v["name"]} 1' for v in user_vs], f'{what} user variables')
    rec.label(*[v['form'] for v in vs])
    rec.nontrivial(len(vs) > 2 and any(v['init'] is not None or v['form'] != 'plain' for v in vs), key=case)
