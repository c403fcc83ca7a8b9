"""Random blocks of C declarations, with what they declare."""
import re

from hypothesis import strategies as st

PRELUDE = '''#define NMAX 4
#define SQ(x) ((x)*(x))
enum { E_ONE = 1, E_TWO };
typedef double real_t;
typedef struct { int a; double b; } pair_t;
typedef const char *text_t;
typedef int (*oper_t)(int, int);
struct Named { int a; double b; };
enum color { RED, GREEN = 5 };
int add2(int a, int b) { return a + b; }
int mul2(int a, int b) { return a * b; }
double half(double x) { return x / 2; }
'''
# (type, how values print)
SCALARS = [('int', 'i'), ('double', 'f'), ('char', 'i'), ('float', 'f'), ('long', 'i'), ('unsigned', 'i'), ('unsigned int', 'i'), ('unsigned long', 'i'), ('long long', 'i'), ('short', 'i'),
           ('long double', 'f'), ('unsigned char', 'i'), ('signed char', 'i'), ('real_t', 'f'), ('size_t', 'i'), ('enum color', 'i'), ('unsigned long long int', 'i'), ('long int', 'i')]
STRUCTS = [('pair_t', 's'), ('struct Named', 's'), ('struct {0} {{ int a; double b; }}', 's'), ('struct {{ int a; double b; }}', 's'), ('struct {0} {{ int a, pad[3]; /* int in; */ double b; }}', 's')]
ENUMS = [('enum {0} {{ {0}_A, {0}_B = 7, {0}_C }}', 'i'), ('enum {{ {0}_A, {0}_B }}', 'i')]
STRINGS = ['"abc"', '"a,b"', '"{x}"', '""', '"q\\"q;"', '"/* no */"', '"// no"', '"=\\\\"']
CHARS = ["'a'", "','", "'}'", "'\"'", "'\\''", "';'", "'\\n'"]
INTS = ['1', '-3', '0', '1+2', '(4)', 'NMAX', 'E_TWO', 'sizeof(int)', '1 ? 2 : 3', 'SQ(3)', '0x1F', '1 << 3', '017'] + CHARS
FLOATS = ['1', '-2.5', '1e3', '.5', '3.0f', '2.0*3', '-(1.5)', '1/4.0', 'NMAX']
DIMS = [('3', 3), ('1', 1), ('2', 2), ('NMAX', 4), ('2*3', 6), ('E_TWO', 2), ('NMAX+1', 5), ('sizeof(int)', 4), (' 2 ', 2), ('0x2', 2), ('max', 3), ('(3)', 3)]
NOISE = ['/* int hidden; */', '// double hidden2 = 3;\n', '#define UNUSED int fake;\n', '/* a\n b */', '#pragma once_upon a = 1;\n', '\n\n', '// { \n', '/* } */', '#define LONG 1 \\\n  int fake2;\n', '\t', '/**/']
NAMES = ['alpha', 'beta', 'x1', 'max', 'n', 'val', 'intern', 'structure', 'doubled', 'long_name_2', '_u', 'N', 'table', 'aa', 'static_x', 'pp', 'q', 'e', 'typedefs', 'pa']
SPACE = [' ', ' ', ' ', '  ', '\n', ' /* c */ ', '\t', ' // d;\n', '/* int z; */']


def braces(draw, kind, dims, full):
    """an initialiser; kind 'i', 'f' or 's'"""
    if not dims:
        if kind == 's':
            return draw(st.sampled_from(['{1, 2.5}', '{0}', '{.b = 2, .a = 1}', '{ 3 , }', '{-1, 2}']))
        return draw(st.sampled_from(INTS if kind == 'i' else FLOATS))
    n = dims[0] if full else draw(st.integers(1, dims[0]))
    parts = [braces(draw, kind, dims[1:], False) for _ in range(n)]
    sep = draw(st.sampled_from([',', ', ', ' ,\n']))
    return '{' + draw(st.sampled_from(['', ' '])) + sep.join(parts) + draw(st.sampled_from(['', ' ', ', ' if n < 9 else ''])) + '}'


@st.composite
def declarator(draw, name, base, kind, inits=True):
    """dict(text, name, pointer, elements, init, check, show)"""
    form = draw(st.sampled_from(['plain'] * 6 + ['pointer', 'pointer', 'array', 'array', 'array', 'unsized', 'parens', 'fp', 'fparray', 'ptoarray', 'parray', 'ppointer']))
    if not inits and form == 'unsized':
        form = 'array'
    sp = draw(st.sampled_from(SPACE))
    d = dict(name=name, pointer=0, elements=None, init=None, simple=True, show=kind, form=form)
    if form == 'plain' or form == 'parens':
        d['text'] = name if form == 'plain' else f'({name})'
        d['simple'] = form == 'plain'
        if inits and draw(st.booleans()):
            d['init'] = braces(draw, kind, [], True)
    elif form in ('pointer', 'ppointer'):
        stars = draw(st.sampled_from(['*', '* ', '*', '* const '])) if form == 'pointer' else draw(st.sampled_from(['**', '* *']))
        d.update(text=stars + name, pointer=stars.count('*'), show='p')
        if inits and (draw(st.booleans()) or 'const' in stars):
            d['init'] = 'NULL'
            if base == 'char' and form == 'pointer':
                d.update(init=draw(st.sampled_from(STRINGS)), show='c')
        elif 'const' in stars:
            d['text'] = '*' + name
    elif form in ('array', 'parray'):
        dims = draw(st.lists(st.sampled_from(DIMS), min_size=1, max_size=3 if form == 'array' else 1))
        dims = [('3', 3) if x == 'max' else (x, n) for x, n in dims]  # (a variable named max must not be confused)
        star = '*' if form == 'parray' else ''
        d.update(text=star + name + ''.join(f'[{x}]' for x, _ in dims), elements=[x.strip() for x, _ in dims], pointer=len(star), show='p' if star else kind)
        if inits and draw(st.booleans()):
            d['init'] = ('{NULL}' if star else '"z"' if base == 'char' and len(dims) == 1 and dims[0][1] > 1 and draw(st.booleans()) else braces(draw, kind, [n for _, n in dims], False))
    elif form == 'unsized':
        if base == 'char':
            inner = draw(st.sampled_from([None, None, None, 9, 9]))
            text = draw(st.sampled_from(STRINGS))
            if inner:
                text = draw(st.sampled_from(['{%s}', '{ "z", %s, }', '{{%s}, "z"}', '{[2] = %s}', "{%s, {'q', ','}}"])) % text
            elif draw(st.integers(0, 2)) == 0:
                text = draw(st.sampled_from(['{%s}', '{ %s }'])) % text
            elif draw(st.integers(0, 4)) == 0:
                text = draw(st.sampled_from(["{'a', 0}", "{[4] = 'x'}", "{'a', [1] = ',', '}'}", "{1 ? 'x' : 'y'}"]))
            d.update(text=f'{name}[]' + (f'[{inner}]' if inner else ''), elements=[''] + ([str(inner)] if inner else []), init=text)
        elif kind in 'if' and draw(st.integers(0, 3)) == 0:
            d.update(text=f'{name}[]', elements=[''], init=draw(st.sampled_from(['{[3] = 1}', '{[1] = 2, 3}', '{1, [4] = 2, 5, [0] = 7}', '{ [ 2 ] = 1, }', '{[NMAX] = 1, [0] = 3}', '{0, [E_TWO] = 4 }', '{SQ(2), 1 ? 2 : 3}'])))
        elif kind in 'if' and draw(st.integers(0, 4)) == 0:
            d.update(text=f'{name}[][2]', elements=['', '2'], init=draw(st.sampled_from(['{1, 2, 3}', '{{1, 2}, 3, 4, 5}', '{[2] = {1}}', '{{[1] = 2}, {3}}', '{[1][1] = 4}', '{{1}, {2}, }', '{1, 2, {3}}'])))
        elif kind == 's' and draw(st.integers(0, 1)) == 0:
            d.update(text=f'{name}[]', elements=[''], init=draw(st.sampled_from(['{{.a = 1}, [2] = {3, 4}}', '{[1].b = 2}', '{{1, 2}, {.b = 3}, }'] + (['{1, 2, 3, 4}', '{1, 2, {3}}'] if 'pad' not in base else []))))
        else:
            dims = [draw(st.integers(1, 4))] + draw(st.lists(st.sampled_from([2, 3]), max_size=1))
            d.update(text=f'{name}[]' + ''.join(f'[{x}]' for x in dims[1:]), elements=[''] + [str(x) for x in dims[1:]], init=braces(draw, kind, dims, True))
    elif form == 'ptoarray':
        d.update(text=f'(*{name})[3]', simple=False, show='p')
        if inits and draw(st.booleans()):
            d['init'] = 'NULL'
    else:  # function pointers
        dim = draw(st.sampled_from(['2', 'NMAX', '', '2][3'])) if form == 'fparray' else None
        fresh = base == 'int'
        args = 'int, int' if fresh else draw(st.sampled_from(['int, int', 'double x', 'void', 'const char *s, int n[]', 'int (*g)(int)']))
        if dim == '' and not inits:
            dim = '2'
        d.update(text=f'(*{name}{f"[{dim}]" if dim is not None else ""})({args})', simple=False, show='p')
        if inits and (draw(st.booleans()) or dim == ''):
            fn = 'add2' if fresh else 'NULL'
            d['init'] = (f'{{{{{fn}}}, {{{fn}, NULL}}}}' if dim and '][' in dim else f'{{{fn}, {"mul2" if fresh else "NULL"}}}') if dim is not None else fn
    return d


@st.composite
def block(draw, inits=True, names=NAMES, storage=True, hi=6, tags=True):
    """list of items: ['noise', text] or ['declare', specs, kind, declarators, text]"""
    used, items, k = [], [], 0
    for _ in range(draw(st.integers(1, hi))):
        what = draw(st.integers(0 if tags else 3, 9))
        if what == 0:
            items.append(dict(noise=draw(st.sampled_from(NOISE))))
        elif what == 1:
            k += 1
            t = f'td{len(used)}_{k}'
            items.append(dict(noise=draw(st.sampled_from([f'typedef double {t};', f'typedef double *{t};', f'typedef int {t}[3];', f'typedef struct {t}_s {{ int x; struct {t}_s *next; }} {t};', f'typedef void (*{t})(int);',
                                                          f'typedef unsigned long {t}, *{t}_p;', f'typedef enum {{ {t}_A }} {t};'])) + '\n',
                              types=[t]))
        elif what == 2:
            k += 1
            t = f'st{len(used)}_{k}'
            items.append(dict(noise=draw(st.sampled_from([f'struct {t} {{ int hidden, hidden2[3]; double (*f)(int hidden3); }};', f'enum {t} {{ {t}_X, {t}_Y = 3 }};', f'struct {t};', f'union {t} {{ int i; double d; }};', f'enum {{ {t}_X }};'])) + '\n'))
        else:
            left = [n for n in names if n not in used]
            if not left:
                break
            ns = draw(st.lists(st.sampled_from(left), unique=True, min_size=1, max_size=3))
            used += ns
            pool = draw(st.sampled_from([SCALARS, SCALARS, SCALARS, [('char', 'i')], STRUCTS, ENUMS]))
            base, kind = draw(st.sampled_from(pool if tags else [x for x in pool if '{' not in x[0]] or SCALARS))
            base = base.format(f'tag_{ns[0]}') if '{' in base else base
            specs = base
            if storage and draw(st.integers(0, 2)) == 0:
                q = draw(st.sampled_from(['static', 'const', 'volatile', 'static const']))
                if base != 'char' or 'const' not in q:
                    specs = f'{q} {base}' if draw(st.booleans()) or 'static' in q else f'{base} {q}'
            ds = [draw(declarator(n, base, kind, inits)) for n in ns]
            for d in ds:
                d['kind'] = kind
            sp = [draw(st.sampled_from(SPACE)) for _ in range(3)]
            text = specs + sp[0]
            if not text[-1:].isspace() and not text.endswith('*/'):
                text += ' '
            text += f',{sp[1]}'.join(d['text'] + (f'{sp[2]}={sp[0]}{d["init"]}' if d['init'] is not None else '') for d in ds) + ';' + draw(st.sampled_from(['\n', ' ', '  // end\n', '\n']))
            items.append(dict(text=text, specs=specs, base=base, declarators=ds))
    return items


def text(items):
    out = ''
    for i in items:
        t = i.get('noise') or i['text']
        if t.lstrip(' \t').startswith('#') and out and not out.endswith('\n'):
            out += '\n'
        out += t
    return out


def variables(items):
    out = []
    for i in items:
        if 'text' in i:
            # a type with a tag is used, not defined again, by the later declarators
            again = re.sub(r'^(.*?\b(?:struct|union)\s+\w+)\s*\{.*\}', r'\1', re.sub(r'^(.*?\benum\s+\w+)\s*\{.*\}', r'\1', re.sub(r'\benum\s*\{.*\}', 'int', i['specs'])), flags=re.S)
            out += [dict(d, specs=again if n else i['specs'], base=i['base']) for n, d in enumerate(i['declarators'])]
    return out
