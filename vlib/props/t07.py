"""T07: generated programs give access by name to the state of a particle, its user variables, and other components."""
from hypothesis import strategies as st

from vlib import cgen, engine, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least three user variables of two types, of which one of a component, and at least four requests'
ASSUMPTIONS = ['the C runtime is a small stand-in for the McCode one, written for observation',
               'user variables have no initial value which is a structure or an array (assignments to these are not C)']
PHYSICAL = {True: 'x y z vx vy vz sx sy sz t p'.split(), False: 'x y z kx ky kz phi Ex Ey Ez t p'.split()}
TEMPORARY = ['_mctmp_a', '_mctmp_b', '_mctmp_c']
# type -> (kind, number of values)
KINDS = {'double': ('f', 1), 'MCNUM': ('f', 1), 'int': ('i', 1), 'long': ('i', 1), 'float': ('f', 1), 'char': ('i', 1), 'short': ('i', 1),
         'unsigned long': ('i', 1), 'Coords': ('f', 3), 'Rotation': ('f', 9)}
NAMES = ['u', 'v', 'w', 'u_1', 'u_2', 'v_3', 'vx_', 'xx', 'U', 'count', 'flag', 'u_1_1', 'tt', 'vx1', '_x', 'Name', 'u_', 'uu', 'name_of_a_rather_long_user_variable']
INSTANCES = ['a', 'b', 'ab', 'A', 'arm', 'a_1', 'c1', 'c11', 'probe', 'Probe', 'T0', 'u']
UNKNOWN = ['', 'unknown', 'X', 'u_9', 'x1', 'vx2', 'randstate', '_uid', 'a ', 'Z', '_index']
values = st.integers(0, 100)


@st.composite
def variable(draw):
    t = draw(st.sampled_from(['double', 'double', 'int', *KINDS]))
    shape = draw(st.sampled_from(['plain', 'plain', 'plain', 'plain', 'array', 'pointer']))
    if shape != 'plain' and KINDS[t][1] > 1:
        shape = 'plain'
    init = draw(st.integers(0, 3)) == 0 and shape == 'plain' and KINDS[t][1] == 1
    return dict(name=draw(st.sampled_from(NAMES)), type=t, shape=shape, size=draw(st.integers(1, 4)), init=draw(values) if init else None)


@st.composite
def program(draw):
    types = [draw(st.lists(variable(), min_size=1, max_size=3)) for _ in range(draw(st.integers(1, 3)))]
    n = draw(st.integers(1, 6))
    names = draw(st.permutations(INSTANCES))[:n]
    comps = [dict(name=names[i], type=draw(st.integers(-1, len(types) - 1)), extend=draw(st.lists(st.tuples(st.integers(0, 20), values), max_size=2)))
             for i in range(n)]
    if all(c['type'] >= 0 for c in comps):
        comps[draw(st.integers(0, n - 1))]['type'] = -1
    op = st.tuples(st.sampled_from(['get', 'void', 'set', 'setvoid', 'setvoid', 'setarray', 'setarray', 'byid', 'byid', 'restore', 'init', 'token', 'index', 'known', 'getnull']),
                   st.integers(0, 40), values, st.integers(0, 4))
    return dict(mcstas=draw(st.booleans()), user=draw(st.lists(variable(), min_size=1, max_size=4)), types=types, comps=comps,
                ops=draw(st.lists(op, min_size=4, max_size=14)), joined=draw(st.booleans()))


class Variable:
    def __init__(self, name, type_, shape='plain', size=1, init=None, owner=None, local=None):
        self.name, self.type, self.shape, self.init, self.owner, self.local = name, type_, shape, init, owner, local
        self.size = size
        self.kind, self.n = KINDS[type_]
        if shape == 'array':
            self.n = size
        if shape == 'pointer':
            self.kind = 'p'

    def made(self, k):
        """Values from a number"""
        if self.kind == 'p':
            return [k % 8]
        if self.type == 'char':
            return [(k + i) % 120 for i in range(self.n)]
        return [(k + i) * (0.25 if self.kind == 'f' else 1) for i in range(self.n)]

    def literals(self, values):
        return ', '.join(('(void *) (pool + %d)' if self.kind == 'p' else '%r' if self.kind == 'f' else '%d') % v for v in values)

    @property
    def scalar(self):
        return self.shape == 'plain'


def declaration(v):
    init = '' if v.init is None else f' = {v.literals([v.init * (0.25 if v.kind == "f" else 1)])}'
    return dict(plain=f'{v.type} {v.local}{init}', array=f'{v.type} {v.local}[{v.size}]', pointer=f'{v.type} *{v.local}')[v.shape]


def block(variables, joined):
    lines = []
    for v in variables:
        d = declaration(v)
        if joined and lines and v.scalar and lines[-1][0] == v.type:
            lines[-1] = (v.type, lines[-1][1] + ', ' + d[len(v.type) + 1:])
        else:
            lines.append((v.type if v.scalar else None, d))
    return ''.join(f'{l[1]};\n' for l in lines)


class Model:
    def __init__(self, prog):
        self.prog = prog
        seen, own = set(), []
        # what belongs to one instance is named after it
        self.declared = []
        for t, vs in enumerate(prog['types']):
            kept, names = [], set()
            for v in vs:
                if v['name'] not in names:
                    names.add(v['name'])
                    kept.append(v)
            self.declared.append(kept)
        for i, c in enumerate(prog['comps']):
            if c['type'] >= 0:
                seen |= {f'{v["name"]}_{i + 1}' for v in self.declared[c['type']]}
        self.user = []
        for v in prog['user']:
            if v['name'] not in seen:
                seen.add(v['name'])
                self.user.append(Variable(v['name'], v['type'], v['shape'], v['size'], v['init'], None, v['name']))
        self.variables = list(self.user)
        order = list(dict.fromkeys(c['type'] for c in prog['comps']))
        for t in order:
            for i, c in enumerate(prog['comps']):
                if c['type'] == t and t >= 0:
                    for v in self.declared[t]:
                        self.variables.append(Variable(f'{v["name"]}_{i + 1}', v['type'], v['shape'], v['size'], v['init'], i, v['name']))
        self.physical = [Variable(m, 'double') for m in PHYSICAL[prog['mcstas']]]
        self.temporary = [Variable(m, 'double') for m in TEMPORARY]
        self.all = self.physical + self.temporary + self.variables
        self.by_name = {v.name: v for v in self.all}
        self.state = {v.name: [0] * v.n if v.kind != 'p' else [-1] for v in self.all}
        self.state['vz' if prog['mcstas'] else 'kz'] = [1]
        self.state['p'] = [1]
        self.free = set()
        self.initialise()

    def initialise(self):
        """Numbers which are not given a value, and are not 'double', 'MCNUM' or 'int', may be set to zero, or not"""
        for v in self.variables:
            if v.scalar and v.n == 1:
                if v.init is not None:
                    self.state[v.name] = [v.init * (0.25 if v.kind == 'f' else 1)]
                elif v.type in ('double', 'MCNUM', 'int'):
                    self.state[v.name] = [0]
                else:
                    continue
                self.free.discard(v.name)

    def shown(self):
        return [f'{v.name}' + ''.join(f' {float(x):.17g}' if v.kind == 'f' else f' {x}' for x in self.state[v.name]) for v in self.all]


def dump(m):
    lines = ['static void dump(_class_particle *p) {']
    for v in m.all:
        lines.append(f'  printf("@v {v.name}");')
        if v.kind == 'p':
            lines.append(f'  printf(" %d", p->{v.name} ? (int) (((double *) p->{v.name}) - pool) : -1);')
        else:
            cast, fmt = ('(double)', '%.17g') if v.kind == 'f' else ('(long)', '%ld')
            lines.append(f'  {{ {v.type} *q = ({v.type} *) &p->{v.name}; (void) q; }}')
            base = 'double' if v.type in ('Coords', 'Rotation') else v.type
            lines.append(f'  for (int i = 0; i < {v.n}; i++) printf(" {fmt}", {cast} (({base} *) &p->{v.name})[i]);')
        lines.append('  printf("\\n");')
    lines += ['  printf("@.\\n");', '}']
    return lines


def operations(m, index):
    """C code, and the answers expected: a text for each operation, and the state after it"""
    code, want = [], []
    everything = m.all + [None]
    for kind, pick, k, n in m.prog['ops']:
        pool = m.variables * 3 + m.all
        v = pool[pick % len(pool)]
        unknown = UNKNOWN[pick % len(UNKNOWN)] if pick % 7 == 0 else None
        if unknown in m.by_name:
            unknown = None
        name = unknown if unknown is not None else v.name
        if kind in ('get', 'getnull'):
            ask = '&s' if kind == 'get' else 'NULL'
            code.append(f'{{ int s = 7; double r = particle_getvar(p, "{name}", {ask}); printf("{kind} %d", s);')
            simple = unknown is not None or v.scalar and v.type in ('double', 'MCNUM')
            code.append(f'  printf(" %.17g\\n", {"r" if simple else "0."}); }}')
            s = 7 if kind == 'getnull' else int(unknown is not None)
            want.append(f'{kind} {s} {float(m.state[name][0]) if simple and unknown is None else 0:.17g}')
        elif kind == 'void':
            code.append(f'{{ int s = 7; void *r = particle_getvar_void(p, "{name}", &s); printf("void %d %d\\n", s, {f"r == (void *) &p->{name}" if unknown is None else "r == 0"}); }}')
            want.append(f'void {int(unknown is not None)} 1')
        elif kind == 'token':
            if unknown is None and v not in m.variables:
                continue
            code.append(f'{{ void *r = _get_particle_var("{name}", p); printf("token %d\\n", {f"r == (void *) &p->{name}" if unknown is None else "r == 0"}); }}')
            want.append('token 1')
        elif kind == 'set':
            new = v.made(k)
            inner = f'{v.literals(new)}'
            base = 'void *' if v.kind == 'p' else 'double' if v.type in ('Coords', 'Rotation') else v.type
            code.append(f'{{ {base} a[] = {{{inner}}}; memcpy(&p->{v.name}, a, sizeof(a)); printf("set\\n"); }}')
            m.state[v.name] = new
            want.append('set')
        elif kind == 'setvoid':
            new = v.made(k)
            base = 'void *' if v.kind == 'p' else 'double' if v.type in ('Coords', 'Rotation') else v.type
            code.append(f'{{ {base} a[] = {{{v.literals(new)}}}; printf("setvoid %d\\n", particle_setvar_void(p, "{name}", a)); }}')
            done = unknown is None and v.scalar
            if done:
                m.state[v.name] = new
            want.append(f'setvoid {int(not done)}')
        elif kind == 'setarray':
            arrays = [x for x in m.variables if x.shape == 'array']
            if arrays and pick % 3 and unknown is None:
                v = arrays[pick % len(arrays)]
                name = v.name
            if unknown is None and v.shape == 'pointer':
                continue
            some = v.made(k)[:max(1, min(n, v.n))] if v.kind != 'p' else [0]
            if n == 0 and v.shape == 'array':
                some_n = 0
            else:
                some_n = len(some)
            base = 'void *' if v.kind == 'p' else 'double' if v.type in ('Coords', 'Rotation') else v.type
            code.append(f'{{ {base} a[] = {{{v.literals(some)}}}; printf("setarray %d\\n", particle_setvar_void_array(p, "{name}", a, {some_n})); }}')
            done = unknown is None and v.shape == 'array'
            if done:
                m.state[v.name] = some[:some_n] + m.state[v.name][some_n:]
            want.append(f'setarray {int(not done)}')
        elif kind == 'byid':
            i = pick % (len(m.variables) + 3) - 1
            ask, s = ('&s', 1) if n else ('NULL', 7)
            code.append(f'{{ int s = 7; double r = particle_getuservar_byid(p, {i}, {ask}); printf("byid %d", s);')
            if 0 <= i < len(m.variables):
                w = m.variables[i]
                simple = w.scalar and w.type in ('double', 'MCNUM')
                code.append(f'  printf(" %.17g\\n", {"r" if simple else "0."}); }}')
                want.append(f'byid {0 if n else 7} {float(m.state[w.name][0]) if simple else 0:.17g}')
            else:
                code.append('  printf(" %.17g\\n", r); }')
                want.append(f'byid {s} 0')
        elif kind == 'restore':
            code.append('{ _class_particle q = *p; p->_absorbed = 1; p->_restore = 1;')
            for j, w in enumerate(m.all):
                base = 'void *' if w.kind == 'p' else 'double' if w.type in ('Coords', 'Rotation') else w.type
                new = w.made(k + j)
                code.append(f'  {{ {base} a[] = {{{w.literals(new)}}}; memcpy(&q.{w.name}, a, sizeof(a)); }}')
                if w in m.physical:
                    m.state[w.name] = new
            code.append('  particle_restore(p, &q); printf("restore %ld %ld\\n", p->_absorbed, p->_restore); }')
            want.append('restore 0 0')
        elif kind == 'init':
            # what has no initial value keeps what it is given here
            for w in m.variables:
                if not (w.scalar and w.n == 1 and (w.init is not None or w.type in ('double', 'MCNUM', 'int'))):
                    zero = [0] * w.n if w.kind != 'p' else [-1]
                    code.append(f'memset(&p->{w.name}, 0, sizeof(p->{w.name}));')
                    m.state[w.name] = zero
            m.initialise()
            code.append('particle_uservar_init(p); printf("init\\n");')
            want.append('init')
        elif kind == 'index':
            comps = [c['name'] for c in m.prog['comps']]
            name = comps[pick % len(comps)] if pick % 5 else INSTANCES[k % len(INSTANCES)]
            code.append(f'printf("index %d\\n", _getcomp_index("{name}"));')
            want.append(f'index {comps.index(name) + 1 if name in comps else -1}')
        elif kind == 'known':
            comps = [c['name'] for c in m.prog['comps']]
            name = comps[pick % len(comps)] if pick % 5 else INSTANCES[k % len(INSTANCES)]
            code.append(f'printf("known %d\\n", _getvar_parameters("{name}") != 0);')
            want.append(f'known {int(name in comps)}')
        code.append('dump(p);')
        want += [f'@v {s}' for s in m.shown()] + ['@.']
    return code, want


def getstate(m, mcstas):
    names = 'x y z vx vy vz t sx sy sz p'.split() if mcstas else 'x y z kx ky kz phi t Ex Ey Ez p'.split()
    args = ', '.join(f'double *{n}' for n in names)
    return [f'_class_particle mcgetstate(_class_particle a, {args}) {{ {" ".join(f"*{n} = a.{n};" for n in names)} return a; }}']


@sub('names', program(), quick=160, thorough=6000, rule='programs with user variables, and requests to read, to set, to restore and to find them')
def names(prog, rec):
    m = Model(prog)
    first = next(i for i, c in enumerate(prog['comps']) if c['type'] < 0)
    comps = {}
    for t, vs in enumerate(m.declared):
        own = [Variable(v['name'], v['type'], v['shape'], v['size'], v['init'], None, v['name']) for v in vs]
        user = f'USERVARS %{{\n{block(own, prog["joined"])}%}}\n' if own or t % 2 else ''
        comps[f'Type{t}'] = f'DEFINE COMPONENT Type{t}\nSETTING PARAMETERS (q = {t})\n{user}TRACE %{{ %}}\nEND\n'
    what_is, want, codes = [], [], []
    # EXTEND blocks set user variables as particles pass
    text = ['DEFINE INSTRUMENT accessors(D = 1)']
    if m.user:
        text.append(f'USERVARS %{{\n{block(m.user, prog["joined"])}%}}')
    text.append('TRACE')
    for i, c in enumerate(prog['comps']):
        kind = 'Probe' if c['type'] < 0 else f'Type{c["type"]}'
        text.append(f'COMPONENT {c["name"]} = {kind}({"q = " + str(i) if i % 2 else ""}) AT (0, 0, 0) ABSOLUTE')
        if kind == 'Probe':
            want += [f'@v {s}' for s in m.shown()] + ['@.']
            if i == first:
                codes, more = operations(m, i)
                want += more
        mine = m.user + [v for v in m.variables if v.owner is not None and prog['comps'][v.owner]['type'] == c['type']]
        lines = []
        for pick, k in c['extend']:
            if mine:
                v = mine[pick % len(mine)]
                new = v.made(k)
                if v.kind == 'p':
                    lines.append(f'{v.name} = {v.literals(new)};'.replace('pool', 'verif_pool()'))
                elif v.type == 'Coords':
                    lines += [f'((double *) &{v.name})[{j}] = {b!r};' for j, b in enumerate(new)]
                elif v.type == 'Rotation':
                    lines += [f'{v.name}[{j // 3}][{j % 3}] = {b!r};' for j, b in enumerate(new)]
                elif v.shape == 'array':
                    lines += [f'{v.name}[{j}] = {b!r};' for j, b in enumerate(new)]
                else:
                    lines.append(f'{v.name} = {new[0]!r};')
                m.state[v.name] = new
        if lines:
            text.append('EXTEND %{\n' + '\n'.join(lines) + '\n%}')
    every = ' '.join(f'printf("@p %d\\n", _getvar_parameters("{c["name"]}") == (void *) &_{c["name"]}_var._parameters);' for c in prog['comps'])
    text += [f'FINALLY %{{ {every} %}}', 'END']
    share = ['static double pool[8];', 'static double *verif_pool(void) { return pool; }', 'int _getcomp_index(char *);',
             'void *_get_particle_var(char *, _class_particle *);', *getstate(m, prog['mcstas']), *dump(m),
             'static void probe(_class_particle *p, int index) {', '  dump(p);', f'  if (index != {first + 1}) return;', *codes, '}']
    code = '\n'.join(share)
    comps['Probe'] = f'DEFINE COMPONENT Probe\nSETTING PARAMETERS (q = 0)\nSHARE %{{\n{code}\n%}}\nTRACE %{{ probe(_particle, _comp->_index); %}}\nEND\n'
    text = '\n'.join(text)
    instr = L.parse_instr(text, comps)
    out = cgen.simulate(instr, ['-n1'], prog['mcstas'])
    body = out.split('@start\n')[1].split('@end\n')[0].splitlines()
    body = [l for l in body if not l.startswith('***')]
    what = '\n'.join(comps.values()) + text + ('' if prog['mcstas'] else ' [McXtrace]') + ':'
    last = 'at the start'
    for n, (g, w) in enumerate(zip(body, want)):
        if not w.startswith('@'):
            last = f'after {w!r} (request {n})'
        eq(g, w, f'{what} {last}')
    eq(body[len(want):], [], f'{what} more answers')
    eq(len(body), len(want), f'{what} number of answers')
    eq([l for l in out.splitlines() if l.startswith('@p ')], ['@p 1'] * len(prog['comps']), f'{what} the parameters of the components')
    rec.label('mcstas' if prog['mcstas'] else 'mcxtrace', *{w.split()[0] for w in want if not w.startswith('@')})
    rec.label(*{f'{v.shape}-{v.type}' for v in m.variables})
    requests = sum(not w.startswith('@') for w in want)
    rec.nontrivial(len(m.variables) > 2 and len({(v.type, v.shape) for v in m.variables}) > 1 and any(v.owner is not None for v in m.variables) and requests > 3, key=[code, text])


@st.composite
def clash(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, owner=draw(st.integers(0, n - 1)), name=draw(st.sampled_from(NAMES)), a=draw(variable()), b=draw(variable()),
                same=draw(st.integers(0, 2)), where=draw(st.sampled_from(['instrument', 'instrument', 'component', 'both', 'twice'])), mcstas=draw(st.booleans()))


@sub('clash', clash(), quick=60, thorough=2000, rule='two declarations of one name: refused unless they are the same')
def clashes(case, rec):
    def text_of(v, name):
        return declaration(Variable(name, v['type'], v['shape'], v['size'], v['init'], None, name))
    a, b = case['a'], case['a'] if case['same'] else case['b']
    where = case['where']
    one = text_of(a, case['name'])
    instrument = text_of(b, f'{case["name"]}_{case["owner"] + 1}' if where == 'both' else case['name'])
    user = f'USERVARS %{{\n{one};\n%}}\n'
    double = f'USERVARS %{{\n{one};\n{text_of(b, case["name"])};\n%}}\n'
    comp = dict(instrument='', component=double, both=user, twice=user)[where]
    comps = {'Type0': f'DEFINE COMPONENT Type0\nSETTING PARAMETERS (q = 0)\n{comp}TRACE %{{ %}}\nEND\n',
             'Type1': 'DEFINE COMPONENT Type1\nSETTING PARAMETERS (q = 0)\nTRACE %{ %}\nEND\n'}
    above = dict(instrument=double, component='', both=f'USERVARS %{{\n{instrument};\n%}}\n', twice=user)[where]
    text = f'DEFINE INSTRUMENT clash(D = 1)\n{above}TRACE\n'
    for i in range(case['n']):
        text += f'COMPONENT c{i} = Type{0 if i == case["owner"] else 1}() AT (0, 0, 0) ABSOLUTE\n'
    text += 'END\n'
    fine = where == 'twice' or one == text_of(b, case['name'])
    instr = L.parse_instr(text, comps)
    what = '\n'.join(comps.values()) + text
    try:
        cgen.source(instr, case['mcstas'])
    except RuntimeError as e:
        check(not fine, f'{what}: refused with {e}')
        rec.label(where + '-refused')
    else:
        check(fine, f'{what}: two declarations of one name are not refused')
        rec.label(where + '-accepted')
        cgen.simulate(instr, ['-n1'], case['mcstas'])
    rec.nontrivial(where != 'twice', key=text)
