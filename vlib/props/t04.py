"""T04: strings and metadata reach the running simulation byte for byte."""
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: the texts contain at least one quote, backslash, control character, trigraph or non-ASCII character'
ASSUMPTIONS = ['texts contain no NUL, which ends a C string', 'the generated source is compiled as UTF-8 C99, McCode\'s own setting',
               'names and types of metadata and units are the text inside a string literal: their escape sequences are C\'s',
               'a metadata name with a space carries its quotes, as the runtime expects']

RAW = ['a', 'F', '0', '1', ' ', '"', '\\', '%', '%d', '%s', '%n', '\n', '\t', '\r', '\r\n', '??/', '??=', '??', '?', "'", 'é', 'ÿ', '€', '😀', '\x01', '\x1b', '\x7f', '\x80', '\x9f',
       '/*', '*/', '//', '{', '}', '#', '\\n', '\\x', '\\0', '"""', '\\"', '$', '`', ';', '\u2028', '\\u00e9', 'END', '    ', '\\\n', ',']
LITERAL = [('a', 'a'), ('B', 'B'), ('0', '0'), ('\\"', '"'), ('\\\\', '\\'), ('\\n', '\n'), ('\\t', '\t'), ('\\101', 'A'), ("'", "'"), ('%', '%'), ('%s', '%s'), ('é', 'é'), ('€', '€'), ('😀', '😀'),
           ('/', '/'), ('//', '//'), ('/*', '/*'), ('*/', '*/'), (';', ';'), ('=', '='), ('{', '{'), ('}', '}'), ('?a', '?a'), ('-', '-'), (',', ',')]
BARE = [(a, b) for a, b in LITERAL if '\\' not in a] + [('"', '"'), ('\n', '\n'), ('\t', '\t'), ('\x01', '\x01')]
SPECIAL = set('"\\%?')

raw = st.lists(st.sampled_from(RAW), max_size=8).map(''.join)


def lit(tokens, space=False, lo=0):
    pool = tokens + ([(' ', ' ')] if space else [])
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=6).map(lambda l: [''.join(x[0] for x in l), ''.join(x[1] for x in l)])


def special(s):
    return any(c in SPECIAL or ord(c) < 32 or ord(c) > 126 for c in s)


def unhex(s):
    return bytes.fromhex(s).decode('utf-8', errors='surrogateescape')


@sub('escape', st.lists(st.one_of(raw, st.text(st.characters(exclude_categories=['Cs'], exclude_characters='\0'), max_size=12)), min_size=1, max_size=40), quick=60, thorough=2500,
     rule='lists of texts, written as C literals by escape_str_for_c, printed by a compiled program')
def escape(texts, rec):
    from mccode_antlr.common.utilities import escape_str_for_c
    rows = '\n'.join(f'  "{escape_str_for_c(t)}",' for t in texts)
    c = f'''#include <stdio.h>
static const char *all[] = {{
{rows}
  0}};
int main(void) {{ for (int i = 0; all[i]; i++) {{ for (const char *p = all[i]; *p; p++) printf("%02x", (unsigned char) *p); printf("\\n"); }} return 0; }}
'''
    with cgen.scratch() as d:
        try:
            out = cgen.run(cgen.compile_(c, d, ['-std=c99']))
        except cgen.CompileError as e:
            raise engine.Violation(f'the literals of {texts} do not compile: {e}')
    for t, got in zip(texts, out.splitlines()):
        eq(unhex(got), t, f'{t!r} written as "{escape_str_for_c(t)}"')
    eq(len(out.splitlines()), len(texts), 'number of literals')
    rec.nontrivial(any(special(t) for t in texts), key=texts)


@st.composite
def metadata(draw, text):
    tokens = LITERAL if text else BARE
    out = []
    for _ in range(draw(st.integers(0, 3))):
        name = draw(st.one_of(st.sampled_from([['n1', 'n1'], ['n2', 'n2'], ['N1', 'N1'], ['a b', '"a b"'], ['x y z', '"x y z"'], ['n-3', 'n-3']]), lit(tokens, lo=1)))
        mime = draw(st.one_of(st.sampled_from([['txt', 'txt'], ['application/json', 'application/json']]), lit(tokens, True)))
        value = draw(raw)
        if text:
            value = value.replace('%}', '% }')
            if value.endswith('%'):
                value += '!'
        elif draw(st.integers(0, 5)) == 0:
            value = '%{' + value
        if not text and value[:2] == '%{' and value[-2:] == '%}':      # the marks of a block are not a part of it
            value = ' ' + value
        out.append([mime, name, value])
    return out


@st.composite
def program(draw):
    text = draw(st.booleans())
    types = [dict(metadata=draw(metadata(True)), default=draw(lit(LITERAL, True))) for _ in range(draw(st.integers(1, 2)))]
    comps = [dict(type=draw(st.integers(0, len(types) - 1)), metadata=draw(metadata(text)), value=draw(st.one_of(st.none(), st.just('param'), lit(LITERAL, True)))) for _ in range(draw(st.integers(1, 3)))]
    if text and len(comps) > 1 and draw(st.booleans()):       # an instance which copies another one has its metadata, too
        k = draw(st.integers(1, len(comps) - 1))
        comps[k]['copy'] = draw(st.integers(0, k - 1))
        comps[k]['type'] = comps[comps[k]['copy']]['type']
    units = [draw(lit(LITERAL if text else BARE, True, 1)) for _ in range(2)]
    if not text:  # a unit in quotes is a literal
        units = [['u' + x for x in u] if u[0][0] == '"' and u[0][-1] == '"' and len(u[0]) > 1 else u for u in units]
    return dict(text=text, mcstas=draw(st.booleans()), types=types, comps=comps, metadata=draw(metadata(text)), default=draw(lit(LITERAL, True)),
                units=units,
                source=draw(st.one_of(st.sampled_from(['test.instr', None]), raw.filter(bool))), embed=draw(st.booleans()), code=draw(raw), output=draw(st.sampled_from(['x.c', 'dir*/x.c'])),
                flag=draw(st.sampled_from([None, None, '-I/opt/*/include', '-DX="a"'])), value=draw(st.one_of(st.none(), raw)))


def meta_text(items):
    out = []
    for mime, name, value in items:
        out.append(f'METADATA {mime[0] if mime[0].isidentifier() and mime[0].isascii() else chr(34) + mime[0] + chr(34)} '
                   f'{name[0] if name[0].isidentifier() and name[0].isascii() else chr(34) + name[0] + chr(34)} %{{{value}%}}')
    return '\n'.join(out)


SHOW = 'printf("@str %s ", NAME_CURRENT_COMP); for (char *c = s; *c; c++) printf("%02x", (unsigned char) *c); printf("\\n");'


def build(prog, source):
    comps = {}
    for i, t in enumerate(prog['types']):
        comps[f'T{i}'] = '\n'.join([f'DEFINE COMPONENT T{i}', f'SETTING PARAMETERS (string s = "{t["default"][0]}")', meta_text(t['metadata']),
                                    f'DEPENDENCY "{prog["flag"]}"' if prog['flag'] and '"' not in prog['flag'] else '', f'INITIALIZE %{{ {SHOW} %}}', 'TRACE %{ x += 1; %}', 'END'])
    par = [f'string f/"{prog["units"][0][0]}" = "{prog["default"][0]}"', f'double d/"{prog["units"][1][0]}" = 1']
    if prog['text']:
        out = [f'DEFINE INSTRUMENT verif({", ".join(par)})', meta_text(prog['metadata']), 'INITIALIZE %{ printf("@init\\n"); %}', 'TRACE']
        for i, c in enumerate(prog['comps']):
            v = '' if c['value'] is None else 's=f' if c['value'] == 'param' else f's="{c["value"][0]}"'
            of = f'COPY(c{c["copy"]})' if 'copy' in c else f'T{c["type"]}'
            out += [f'COMPONENT c{i} = {of}({v}) AT (0, 0, {i}) ABSOLUTE', meta_text(c['metadata'])]
        instr = L.parse_instr('\n'.join(out + ['END']), comps, source=source or '<string>')
        instr.source = source  # as the loader does
    else:
        from mccode_antlr.common import Expr, InstrumentParameter
        from mccode_antlr.common.metadata import MetaData
        a = L.assembler(comps)
        instr = a.instrument
        instr.add_parameter(InstrumentParameter('f', prog['units'][0][0], Expr.str(f'"{prog["default"][0]}"')))
        instr.add_parameter(InstrumentParameter('d', prog['units'][1][0], Expr.float(1)))
        for mime, name, value in prog['metadata']:
            a.metadata(name[0], mime[0], value)
        a.initialize('printf("@init\\n");', source=source)
        for i, c in enumerate(prog['comps']):
            v = {} if c['value'] is None else dict(s='f') if c['value'] == 'param' else dict(s=f'"{c["value"][0]}"')
            inst = a.component(f'c{i}', f'T{c["type"]}', at=([0, 0, i], None), parameters=v)
            for mime, name, value in c['metadata']:
                inst.add_metadata(MetaData.from_instance_tokens(f'c{i}', mime[0], name[0], value))
        instr.source = source
    return instr, comps


def merged(items, source):
    out = {}
    for mime, name, value in items:
        n = name[0]
        out[n] = (source, f'"{name[1]}"' if ' ' in n and name[1][:1] != '"' else name[1], mime[1], value)
    return out


def expected_metadata(prog):
    rows = set(merged(prog['metadata'], None).values()) if False else set()
    for i, c in enumerate(prog['comps']):
        m = merged(prog['types'][c['type']]['metadata'], f'T{c["type"]}')
        own = merged(prog['comps'][c['copy']]['metadata'] if 'copy' in c else [], f'c{i}')
        own.update(merged(c['metadata'], f'c{i}'))
        # the same name may be spelt differently: names are compared as written
        m.update(own)
        rows |= set(m.values())
    return rows | set(merged(prog['metadata'], 'verif').values())


def simulate(prog, folder):
    source = prog['source']
    embedded = prog['embed'] and source is not None
    if embedded:
        source = str(Path(folder, source.replace('/', '|')))
        with open(source, 'w', newline='', encoding='utf-8') as f:
            f.write(prog['code'])
    instr, comps = build(prog, source)
    if prog['flag']:
        instr.flags = tuple(instr.flags) + (prog['flag'],)
    args = ['-n1'] + ([f'f={prog["value"]}'] if prog['value'] is not None else [])
    what = f'{instr}' + '\n'.join(comps.values()) + f'(as {"text" if prog["text"] else "assembled"}, source {source!r})'
    with cgen.quiet():
        text = cgen.source(instr, prog['mcstas'], embed_instrument_file=embedded, output=prog['output'])
    try:
        exe = cgen.compile_(text, folder, ['-std=c99'])
    except cgen.CompileError as e:
        raise engine.Violation(f'{what} does not compile: {e}')
    return cgen.run(exe, args).splitlines(), source, embedded, what


@sub('texts', program(), quick=220, thorough=8000, rule='instruments with texts of all kinds at every place for one')
def texts(prog, rec):
    with cgen.scratch() as d:
        lines, source, embedded, what = simulate(prog, d)
    got = {}
    for l in lines:
        w = l.split(' ', 1) + ['']
        got.setdefault(w[0], []).append(w[1])
    eq(unhex(got['@name'][0].strip()), 'verif', f'{what} name')
    eq(unhex(got['@source'][0].strip()), source or '', f'{what} source')
    code = unhex(got['@code'][0].strip())
    if embedded:
        eq(code, prog['code'], f'{what} embedded source')
    elif source is not None:
        check(source in code, f'{what} message about the source {code!r}')
    pars = {}
    for p in got['@par']:
        n, _, v, u = p.split()
        pars[n] = (unhex(v[1:]), unhex(u[1:]))
    eq(pars, dict(f=(prog['default'][1], prog['units'][0][1]), d=('1' if prog['text'] else '1.0', prog['units'][1][1])), f'{what} parameter table')
    rows = [tuple(unhex(x[1:]) for x in m.split()) for m in got.get('@meta', [])]
    want = expected_metadata(prog)
    for r in rows:
        check(r in want, f'{what} has metadata {r}, not in {sorted(want)}')
    for r in want:
        check(r in rows, f'{what} metadata {r} is missing, there is {rows}')
    f, shown = prog['default'][1] if prog['value'] is None else prog['value'], []
    for i, c in enumerate(prog['comps']):
        v = prog['types'][c['type']]['default'][1] if c['value'] is None and 'copy' not in c else shown[c['copy']] if c['value'] is None else f if c['value'] == 'param' else c['value'][1]
        shown.append(v)
        g = [x.split(' ', 1)[1] for x in got['@str'] if x.split(' ', 1)[0] == f'c{i}']
        eq([unhex(x.strip()) for x in g], [v], f'{what} string parameter of c{i}')
    every = [prog['default'][0], source or '', prog['code'] if embedded else ''] + [x for r in want for x in r]
    rec.label('text' if prog['text'] else 'assembled', 'embedded' if embedded else 'not-embedded', f'metadata{min(3, len(want))}')
    rec.nontrivial(any(special(t) for t in every), key=prog)
