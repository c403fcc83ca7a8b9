"""T05: library includes and shared code appear once, after what they need."""
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least two libraries of which one includes another, and two places which include the same one'
ASSUMPTIONS = ['libraries are used through their header, as the runtime requires; headers do not include each other in a circle, sources may',
               'the C runtime is a small stand-in for the McCode one']
LIBS = ['lib', 'lib2', 'a', 'a-lib', 'b', 'read_table-lib', 'ab', 'my_lib', 'Lib', 'z9', 'b-a']
FILES = ['a.inc', 'part.c', 'x.y.h', 'b.inc', 'lib.txt', 'more.c']
BODY = ['initialize', 'trace', 'save', 'finally', 'display']
FORMS = ['%include "{}"', '  %include "{}"', '%include  "{}"  ', '\t%include"{}"', '\n\n%include "{}"\n\n']
ODD = ['/* \\n \\1 %s é */', '/* "quoted" %include x */', '#define ODD_{} "\\\\\\"%d\\n"', '// %include "nothing"', '']


@st.composite
def graph(draw):
    names = draw(st.lists(st.sampled_from(LIBS), unique=True, min_size=draw(st.integers(1, 5)), max_size=6))
    libs = []
    for i, n in enumerate(names):
        libs.append(dict(name=n, header=draw(st.lists(st.integers(0, i - 1), unique=True, max_size=3)) if i else [],
                         source=draw(st.lists(st.integers(0, len(names) - 1), unique=True, max_size=2)) if draw(st.booleans()) else [],
                         form=draw(st.integers(0, 4)), odd=draw(st.integers(0, 4)), late=draw(st.booleans())))
    files = []
    for i, n in enumerate(draw(st.lists(st.sampled_from(FILES), unique=True, min_size=draw(st.integers(0, 2)), max_size=3))):
        files.append(dict(name=n, decl=draw(st.booleans()), libs=draw(st.lists(st.integers(0, len(libs) - 1), unique=True, max_size=2)),
                          files=draw(st.lists(st.integers(0, i - 1), unique=True, max_size=2)) if i else [], odd=draw(st.integers(0, 4))))
    return libs, files


@st.composite
def program(draw):
    libs, files = draw(graph())

    def uses(decl):
        fs = [i for i, f in enumerate(files) if f['decl'] == decl]
        return dict(libs=draw(st.lists(st.integers(0, len(libs) - 1), unique=True, max_size=3)),
                    files=draw(st.lists(st.sampled_from(fs), min_size=draw(st.integers(0, 1)), max_size=2)) if fs else [], form=draw(st.integers(0, 4)))
    types = []
    for i in range(draw(st.integers(1, 3))):
        t = dict(share=uses(True) if draw(st.integers(0, 3)) else None)
        for s in BODY:
            t[s] = uses(False) if draw(st.integers(0, 2)) == 0 else None
        types.append(t)
    comps = [dict(type=draw(st.integers(0, len(types) - 1)), extend=uses(False) if draw(st.integers(0, 3)) == 0 else None) for _ in range(draw(st.integers(1, 4)))]
    instr = {s: uses(s == 'declare') if draw(st.integers(0, 3)) == 0 else None for s in ['declare', 'initialize', 'save', 'finally']}
    return dict(libs=libs, files=files, types=types, comps=comps, instr=instr, mcstas=draw(st.booleans()))


class Model:
    def __init__(self, prog):
        self.prog, self.libs, self.files = prog, prog['libs'], prog['files']

    def value(self, lib):
        return 3 + 7 * lib + sum(self.value(d) for d in self.libs[lib]['header'])

    def file_value(self, f):
        """what the statements of the file add"""
        x = self.files[f]
        return 1000 * (f + 1) + sum(self.file_value(k) for k in self.nested(f)) + sum(self.value(k) for k in x['libs'])

    def nested(self, f):
        """files of the same sort"""
        return [k for k in self.files[f]['files'] if self.files[k]['decl'] == self.files[f]['decl']]

    def used_by(self, use):
        """libraries requested, and times each file is inserted"""
        libs, files = set(), {}

        def file(f):
            files[f] = files.get(f, 0) + 1
            libs.update(self.files[f]['libs'])
            for k in self.nested(f):
                file(k)
        libs.update(use['libs'])
        for f in use['files']:
            file(f)
        return libs, files

    def closure(self, libs, headers_only=False):
        todo, out = list(libs), set()
        while todo:
            k = todo.pop()
            if k not in out:
                out.add(k)
                todo += self.libs[k]['header'] + ([] if headers_only else self.libs[k]['source'])
        return out

    def acc(self, use):
        return 0 if use is None else sum(self.value(k) for k in use['libs']) + sum(self.file_value(f) for f in use['files'])


def ident(name):
    return ''.join(c if c.isalnum() else '_' for c in name)


def include(name, form):
    return FORMS[form].format(name)


def write(prog, folder):
    Path(folder, 'mccode-r.h').write_text('')  # (for translation without the runtime)
    m = Model(prog)
    for i, l in enumerate(prog['libs']):
        n = l['name']
        deps = [include(prog['libs'][d]['name'], l['form']) for d in l['header']]
        need = ''.join(f'#ifndef HAVE_{d}_H\n#error {n} needs {prog["libs"][d]["name"]}\n#endif\n' for d in l['header'])
        head = f'/*H:{n}*/\n#ifdef HAVE_{i}_H\n#error {n} is here twice\n#endif\n'
        body = f'{need}#define HAVE_{i}_H\n' + f'typedef struct {{ int v; {" ".join(f"S_{d} d{d};" for d in l["header"])} }} S_{i};\nint f_{i}(void);\n{ODD[l["odd"]].format(i)}\n'
        text = head + '\n'.join(deps) + '\n' + body if l['late'] else '\n'.join(deps) + '\n' + head + body
        Path(folder, n + '.h').write_text(text, encoding='utf-8')
        deps = [include(prog['libs'][d]['name'], l['form']) for d in l['source']]
        need = ''.join(f'#ifndef HAVE_{d}_H\n#error source of {n} needs {prog["libs"][d]["name"]}\n#endif\n' for d in [i] + l['source'] + l['header'])
        Path(folder, n + '.c').write_text('\n'.join(deps) + f'\n/*C:{n}*/\n{need}int f_{i}(void) {{ S_{i} s; s.v = {3 + 7 * i}; return s.v{"".join(f" + f_{d}()" for d in l["header"])}; }}\n{ODD[(l["odd"] + 2) % 5].format(f"{i}c")}\n', encoding='utf-8')
    for f, x in enumerate(prog['files']):
        inc = [include(prog['libs'][d]['name'], f % 5) for d in x['libs']] + [include(prog['files'][k]['name'], (f + 1) % 5) for k in m.nested(f)]
        if x['decl']:
            body = f'#ifndef D_{f}\n#define D_{f}\nstatic int d_{f}(void) {{ return {1000 * (f + 1)}{"".join(f" + f_{d}()" for d in x["libs"])}{"".join(f" + d_{k}()" for k in m.nested(f))}; }}\n#endif\n'
        else:
            body = f'acc += {1000 * (f + 1)}{"".join(f" + f_{d}()" for d in x["libs"])};\n'
        Path(folder, x['name']).write_text('\n'.join(inc) + f'\n/*F:{x["name"]}*/\n{ODD[x["odd"]].format(f"f{f}")}\n'.replace('#define ODD', '//#define ODD') + body, encoding='utf-8')


def directives(prog, use):
    lines = [include(prog['libs'][k]['name'], use['form']) for k in use['libs']] + [include(prog['files'][k]['name'], use['form']) for k in use['files']]
    return '\n'.join(lines) + '\n' + ''.join(f'#ifndef HAVE_{k}_H\n#error {prog["libs"][k]["name"]} is not here\n#endif\n' for k in use['libs'])


def body(prog, use, where, name):
    calls = ''.join(f' + f_{k}()' for k in use['libs'])
    return f'{{ int acc = 0;\n{directives(prog, use)}acc += 0{calls};\nprintf("@v {where} %s %d\\n", {name}, acc); }}'


def comp_text(prog, i):
    t = prog['types'][i]
    out = [f'DEFINE COMPONENT T{i}']
    if t['share']:
        calls = ''.join(f' + f_{k}()' for k in t['share']['libs']) + ''.join(f' + d_{k}()' for k in t['share']['files'])
        out.append(f'SHARE %{{\n{directives(prog, t["share"])}/*S:T{i}*/\nint share_{i}(void) {{ return 0{calls}; }}\n%}}')
    own = f'printf("@v share %s %d\\n", NAME_CURRENT_COMP, share_{i}());' if t['share'] else ''
    for s in BODY:
        code = (body(prog, t[s], s, 'NAME_CURRENT_COMP') if t[s] else '') + (own if s == 'initialize' else '')
        if code or s == 'trace':
            out.append(f'{"DISPLAY" if s == "display" else s.upper()} %{{\n{code or "x += 1;"}\n%}}')
    return '\n'.join(out + ['END', ''])


def text(prog):
    i = prog['instr']
    out = ['DEFINE INSTRUMENT verif()']
    if i['declare']:
        calls = ''.join(f' + f_{k}()' for k in i['declare']['libs']) + ''.join(f' + d_{k}()' for k in i['declare']['files'])
        out.append(f'DECLARE %{{\n{directives(prog, i["declare"])}int declared(void) {{ return 0{calls}; }}\n%}}')
    own = 'printf("@v declare instrument %d\\n", declared());' if i['declare'] else ''
    if i['initialize'] or own:
        out.append(f'INITIALIZE %{{\n{body(prog, i["initialize"], "initialize", chr(34) + "instrument" + chr(34)) if i["initialize"] else ""}{own}\n%}}')
    out.append('TRACE')
    for n, c in enumerate(prog['comps']):
        e = c['extend']
        out.append(f'COMPONENT c{n} = T{c["type"]}() AT (0, 0, {n}) ABSOLUTE' + (f' EXTEND %{{\n{body(prog, e, "extend", "NAME_CURRENT_COMP")}\n%}}' if e else ''))
    for s in ('save', 'finally'):
        if i[s]:
            out.append(f'{s.upper()} %{{\n{body(prog, i[s], s, chr(34) + "instrument" + chr(34))}\n%}}')
    return '\n'.join(out + ['END', ''])


def expected(prog):
    m = Model(prog)
    want = []
    used = sorted({c['type'] for c in prog['comps']})
    uses = [u for t in used for u in prog['types'][t].values() if u] + [u for u in prog['instr'].values() if u] + [c['extend'] for c in prog['comps'] if c['extend']]
    for n, c in enumerate(prog['comps']):
        t = prog['types'][c['type']]
        if t['share']:
            want.append(f'@v share c{n} {m.acc(t["share"])}')
        for s in BODY:
            if t[s]:
                want.append(f'@v {s} c{n} {m.acc(t[s])}')
        if c['extend']:
            want.append(f'@v extend c{n} {m.acc(c["extend"])}')
    for s, u in prog['instr'].items():
        if u:
            want.append(f'@v {s} instrument {m.acc(u)}')
    return uses, sorted(want)


def parse(prog, folder):
    from mccode_antlr.reader.registry import LocalRegistry
    comps = {f'T{i}': comp_text(prog, i) for i in range(len(prog['types']))}
    registries = [cgen.registry(), L.memory(comps), LocalRegistry('libs', str(folder))]
    return L.parse_instr(text(prog), registries=registries), comps


def describe(prog, comps, folder):
    return text(prog) + ''.join(comps.values()) + ''.join(f'{p.name}: {p.read_text(encoding="utf-8")}' for p in sorted(Path(folder).iterdir()) if p.suffix != '.o')


def once(source, mark, what):
    n = source.count(mark)
    check(n == 1, f'{what}: {mark} is {n} times in the source')
    return source.index(mark)


def order(prog, source, uses, runtime, what):
    m = Model(prog)
    direct = set().union(*[m.used_by(u)[0] for u in uses]) if uses else set()
    libs = m.closure(direct, not runtime)
    at_h, at_c = {}, {}
    for k, l in enumerate(prog['libs']):
        if k in libs:
            at_h[k] = once(source, f'/*H:{l["name"]}*/', what)
            if runtime:
                at_c[k] = once(source, f'/*C:{l["name"]}*/', what)
        else:
            check(f'/*H:{l["name"]}*/' not in source and f'/*C:{l["name"]}*/' not in source, f'{what}: {l["name"]} is included but not requested')
    for k in libs:
        for d in prog['libs'][k]['header']:
            check(at_h[d] < at_h[k], f'{what}: the header of {prog["libs"][d]["name"]} is after that of {prog["libs"][k]["name"]} which includes it')
    if runtime:
        check(not libs or max(at_h.values()) < min(at_c.values()), f'{what}: a library source is before a header')
        for k in libs:
            for d in prog['libs'][k]['header'] + prog['libs'][k]['source']:
                if d != k and k not in m.closure([d]):
                    check(at_c[d] < at_c[k], f'{what}: the source of {prog["libs"][d]["name"]} is after that of {prog["libs"][k]["name"]} which includes it')
    for i in range(len(prog['types'])):
        if any(c['type'] == i for c in prog['comps']) and prog['types'][i]['share']:
            at = once(source, f'/*S:T{i}*/', what)
            for k in m.closure(m.used_by(prog['types'][i]['share'])[0], True):
                check(at_h[k] < at, f'{what}: the shared code of T{i} is before {prog["libs"][k]["name"]} which it includes')
        else:
            check(f'/*S:T{i}*/' not in source, f'{what}: the shared code of T{i} is not needed')
    want = {}
    for u in uses:
        for f, n in m.used_by(u)[1].items():
            want[f] = want.get(f, 0) + n
    # code in trace is generated once for each type, EXTEND in a copy of it for each instance
    return libs, want


@sub('compiled', program(), quick=240, thorough=8000, rule='instruments with random include graphs, compiled and run')
def compiled(prog, rec):
    with cgen.scratch() as d, cgen.scratch() as e:
        write(prog, d)
        instr, comps = parse(prog, d)
        what = describe(prog, comps, d)
        source = cgen.source(instr, prog['mcstas'])
        uses, want = expected(prog)
        libs, _ = order(prog, source, uses, True, what)
        bare = cgen.source(instr, prog['mcstas'], include_runtime=False)
        order(prog, bare, uses, False, what + ' without runtime')
        try:
            exe = cgen.compile_(source, e)
        except cgen.CompileError as err:
            raise engine.Violation(f'{what} does not compile: {err}')
        out = cgen.run(exe, ['-n1', '-t'])
    got = sorted(l for l in out.splitlines() if l.startswith('@v '))
    eq(got, want, what)
    m = Model(prog)
    requests = [k for u in uses for k in m.used_by(u)[0]]
    rec.label(f'libraries{min(len(libs), 4)}', 'files' if any(u['files'] for u in uses) else 'no-files')
    rec.nontrivial(any(set(prog['libs'][k]['header'] + prog['libs'][k]['source']) - {k} for k in libs) and len(set(requests)) < len(requests), key=prog)
