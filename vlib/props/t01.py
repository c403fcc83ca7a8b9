"""T01: the generated simulation runs components in McCode order and control flow."""
import math

from hypothesis import strategies as st

from vlib import cgen, engine, gen_flow, lib as L
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least three kinds of control flow (groups hit or missed, jumps, splits, conditions, restored or absorbed particles) happened in the run'
ASSUMPTIONS = ['the C runtime is a small stand-in for the McCode one, written for observation',
               'no JUMP or group exit passes over a SPLIT, no JUMP starts in a group or ends behind its first member, groups are contiguous, and split counts are positive',
               'a component which restores the particle does not absorb it too', 'in funnel mode JUMP is ignored, as announced, and SPLIT is left to the runtime']


def parse_log(out):
    head, rest = out.split('@start\n', 1)
    body, tail = rest.split('@end\n', 1)
    return head, body, tail


def lines_of(body):
    got = []
    for l in body.splitlines():
        w = l.split()
        if w and w[0] in ('T', 'X'):
            got.append((w[0], int(w[1]), w[2], [float(v) for v in w[3:11]], [int(v) for v in w[11:]]))
    return got


def same(g, w):
    return g[:3] == w[:3] and g[4] == w[4] and all(abs(a - b) <= 1e-7 * max(1, abs(b)) for a, b in zip(g[3], w[3]))


def compare(got, want, what):
    for k, (g, w) in enumerate(zip(got, want)):
        check(same(g, w), f'{what} event {k} is {show(g)}, expected {show(w)}')
    if len(got) != len(want):
        raise engine.Violation(f'{what} {len(got)} events, expected {len(want)}; next: {show((got + [None])[len(want)] if len(got) > len(want) else want[len(got)])}')


def show(e):
    return f'{e[0]} of particle {e[1]} at {e[2]}, state {[round(v, 6) for v in e[3]]} scattered, n1, n2, count = {e[4]}'


def sections(prog, section, show_all=False):
    return [f'{section} {gen_flow.name(prog, i)}' for i, c in enumerate(prog['comps']) if section in prog['types'][c['type']]['sections']]


def run(prog, rec, extra=()):
    m = gen_flow.Model(prog, nosplit='-DNOSPLIT' in extra)
    try:
        want = m.run()
    except gen_flow.TooLong:
        return
    if len(want) > 3000:
        return
    comps = {t['name']: gen_flow.comp_text(prog, t) for t in prog['types']}
    text = gen_flow.text(prog)
    instr = L.parse_instr(text, comps)
    args = [f'{k}={v}' for k, v in prog['values'].items()] + [f'-n{prog["n"]}', '-t', f'-s{prog["seed"]}']
    flags = (['-DFUNNEL'] if prog['funnel'] else []) + ([] if prog['rank'] is None else ['-DUSE_MPI', f'-Dmpi_node_rank={prog["rank"]}']) + list(extra)
    what = f'{text} with {args}{flags}:'
    source = cgen.source(instr, prog['mcstas'])
    with cgen.scratch() as d:
        exe = cgen.compile_(source, d, flags)
        out = cgen.run(exe, args)
        other = cgen.run(exe, args[:-1] + [f'-s{prog["seed"] + 7}']) if prog['again'] else None
    head, body, tail = parse_log(out)
    if other is not None:
        again = parse_log(other)[1]
        eq([l for l in again.splitlines() if l[:2] != 'R '], [l for l in body.splitlines() if l[:2] != 'R '], f'{what} all but the random numbers with another seed')
        for a, b in zip(drawn(body).items(), drawn(again).items()):
            check(a[0] == b[0] and a[1][0] != b[1][0], f'{what} particle {a[0]} has the random sequence {b} with another seed, too')
    got = lines_of(body)
    if prog['funnel']:
        for uid in gen_flow.uids(prog):
            compare([g for g in got if g[1] == uid], [w for w in want if w[1] == uid], what)
        eq(len(got), len(want), f'{what} events')
    else:
        compare(got, want, what)
        followed(body, prog, what)
    streams(body, want, what)
    v = prog['values']
    code = lambda s: [f'{s} {v["A"]} {v["B"]} {v["D"]:.15g}'] if s in prog['code'] else []
    hl = [l for l in head.splitlines() if l.startswith('initialize ')]
    eq(hl, code('initialize') + sections(prog, 'initialize'), f'{what} initialisations')
    shown = [l for l in head.splitlines() if l.startswith(('display ', 'MCDISPLAY: component'))]
    wanted = []
    for i, c in enumerate(prog['comps']):
        wanted.append(f'MCDISPLAY: component {gen_flow.name(prog, i)}')
        if 'display' in prog['types'][c['type']]['sections']:
            wanted.append(f'display {gen_flow.name(prog, i)}')
    eq(shown, wanted, f'{what} display')
    ended = [l for l in tail.splitlines() if l.startswith(('save ', 'finally '))]
    eq(ended, code('save') + sections(prog, 'save') + code('finally') + sections(prog, 'finally'), f'{what} save and finally')
    check('@done 0\n' in tail, f'{what} the simulation information is not closed as often as opened')
    f = m.features
    if any(c['copy'] is not None and c['jumps'] for c in prog['comps']):
        f.add('copied-jump')
    rec.label(*sorted(f))
    rec.label('events-' + str(len(want) // 10 * 10 if len(want) < 50 else 50))
    rec.nontrivial(len(f - {'act-.', 'act-m', 'act-s', 'act-b'}) >= 3 and len(want) > 3, key=[text, v, prog['n']])


def drawn(body):
    """the random numbers of each particle"""
    got = {}
    for l in body.splitlines():
        w = l.split()
        if w and w[0] == 'R':
            got.setdefault(int(w[1]), []).append(int(w[2]))
    return got


def streams(body, want, what):
    """The random sequence of a particle is its own and goes on, whatever happens to its state"""
    got = drawn(body)
    eq({k: len(v) for k, v in got.items()}, {k: n for k in {w[1] for w in want} if (n := sum(w[:2] == ('T', k) for w in want))}, f'{what} random numbers drawn')
    for uid, s in got.items():
        for k in range(1, len(s)):
            eq(s[k], (s[k - 1] * gen_flow.STEP[0] + gen_flow.STEP[1]) % 2**64, f'{what} number {k} of the random sequence {s} of particle {uid}')
    eq(len({s[0] for s in got.values()}), len(got), f'{what} different random sequences of the particles, {[s[0] for s in got.values()]}')


def followed(body, prog, what):
    """The trace which the runtime writes (-t) tells, for each particle, where it is and its state there"""
    last, inside = [], None
    for l in body.splitlines():
        w = l.split()
        if not w or w[0] not in ('T', '@ENTER', '@COMP', '@STATE', '@LEAVE'):
            continue
        kind, uid = w[0], int(w[1])
        if kind == '@ENTER':
            check(inside is None, f'{what} particle {uid} is entered in the trace before {inside} left')
            inside = uid
        if kind == '@STATE' and last and last[-1][0] == '@LEAVE':
            continue
        eq(uid, inside, f'{what} particle of {l!r} in the trace')
        if kind == 'T':
            check([x[0] for x in last[-2:]] == ['@COMP', '@STATE'], f'{what} the trace before {l!r} does not tell component and state but {last[-2:]}')
            eq(last[-2][2], w[2], f'{what} the component in the trace before {l!r}')
            check(all(abs(float(a) - float(b)) <= 1e-12 * max(1, abs(float(b))) for a, b in zip(last[-1][2:], w[3:11])),
                  f'{what} the state in the trace before {l!r} is {last[-1]}')
        if kind == '@LEAVE':
            inside = None
        last = [*last[-1:], w]
    check(inside is None, f'{what} particle {inside} does not leave in the trace')


@sub('serial', gen_flow.program(), quick=360, thorough=6000, rule='one particle after the other')
def serial(prog, rec):
    run(prog, rec)


@sub('funnel', gen_flow.program(funnel=True), quick=200, thorough=4000, rule='all particles through one section after the other')
def funnel(prog, rec):
    run(prog, rec)


@sub('whole', gen_flow.program().filter(lambda p: any(c['split'] is not None for c in p['comps'])), quick=40, thorough=800,
     rule='with splits switched off when compiling')
def whole(prog, rec):
    run(prog, rec, ['-DNOSPLIT'])


CODE_SECTIONS = ('initialize', 'trace', 'save', 'finally', 'display')
ALL_SECTIONS = ('share', 'uservars', 'declare') + CODE_SECTIONS
WORD = {'uservars': 'USERVARS', 'display': 'MCDISPLAY'}


@st.composite
def family(draw):
    types = []
    for i in range(draw(st.integers(2, 5))):
        t = dict(copy=draw(st.integers(0, i - 1)) if i and draw(st.booleans()) else None, sections={}, first=draw(st.booleans()))
        for s in ALL_SECTIONS:
            k = draw(st.sampled_from(['none', 'block', 'block', 'copy', 'extend', 'extend', 'empty']))
            if k in ('copy', 'extend') and (not i or s == 'uservars'):
                k = 'block'
            if k != 'none':
                t['sections'][s] = dict(kind=k, copy=draw(st.integers(0, i - 1)) if k in ('copy', 'extend') else None)
        types.append(t)
    n = draw(st.integers(1, 6))
    comps = [dict(type=draw(st.integers(0, len(types) - 1)), copy=draw(st.integers(0, i - 1)) if i and draw(st.integers(0, 2)) == 0 else None,
                  extend=draw(st.integers(0, 2))) for i in range(n)]
    return dict(types=types, comps=comps, mcstas=draw(st.booleans()), names=draw(st.permutations(['Ta', 'Tb', 'Tab', 'A', 'Z', 'T_1'])), n=draw(st.integers(1, 2)))


def own_block(section, t, kind='int'):
    if section == 'share':
        return f'#ifndef SHARE_{t}\n#define SHARE_{t}\ntypedef int type_{t};\nstatic int share_{t} = __COUNTER__;\n#endif'
    if section in ('uservars', 'declare'):
        return f'{kind} {section[0]}_{t};'
    return f'printf("{section} {t} %s\\n", NAME_CURRENT_COMP);'


@sub('inherited', family(), quick=100, thorough=3000, rule='component definitions whose sections are copied from, and extend, those of others; non-trivial: a used definition has a section of two or more blocks and one which is inherited')
def inherited(prog, rec):
    names, blocks, comps = prog['names'], [], {}
    for i, t in enumerate(prog['types']):
        mine = {s: list(blocks[t['copy']][s]) if t['copy'] is not None else [] for s in ALL_SECTIONS}
        for s, d in t['sections'].items():
            mine[s] = (list(blocks[d['copy']][s]) if d['copy'] is not None else []) + ([names[i]] if d['kind'] in ('block', 'extend') else [])
        blocks.append(mine)

    def declared_type(t):
        # a type of a SHARE block which all definitions with this declaration have
        have = [b['share'] for b in blocks if t in b['declare']]
        common = [x for x in (have[0] if have else []) if all(x in h for h in have)]
        return f'type_{common[-1]}' if common else 'int'
    for i, t in enumerate(prog['types']):
        text = [f'DEFINE COMPONENT {names[i]}' + (f' COPY {names[t["copy"]]}' if t['copy'] is not None else '')]
        for s in ALL_SECTIONS:
            d = t['sections'].get(s)
            if d is None:
                continue
            word = WORD.get(s, s.upper())
            body = '' if d['kind'] == 'empty' else own_block(s, names[i], declared_type(names[i]) if s == 'declare' else 'int')
            if d['kind'] == 'copy':
                text.append(f'{word} COPY {names[d["copy"]]}')
            elif d['kind'] == 'extend':
                text.append(f'{word} COPY {names[d["copy"]]} EXTEND %{{\n{body}\n%}}')
            else:
                text.append(f'{word} %{{\n{body}\n%}}')
        comps[names[i]] = '\n'.join(text) + '\nEND\n'
    kinds = []
    out = ['DEFINE INSTRUMENT family(D = 1)', 'USERVARS %{ int seen; %}']
    trace, extends, later = ['TRACE'], [], []
    for i, c in enumerate(prog['comps']):
        kinds.append(c['type'] if c['copy'] is None else kinds[c['copy']])
        kind = f'{names[c["type"]]}()' if c['copy'] is None else f'COPY(c{c["copy"]})()'
        trace.append(f'COMPONENT c{i} = {kind} AT (0, 0, 0) ABSOLUTE')
        user = dict.fromkeys(blocks[kinds[i]]['uservars'])
        lines = ''.join(f'u_{t}_{i + 1} = {i}; seen += u_{t}_{i + 1}; ' for t in user)
        code = [f'{lines if k == 0 else ""}printf("extend {i}.{k} %s\\n", NAME_CURRENT_COMP);' for k in range(c['extend'])]
        if c['extend'] == 1:
            trace.append(f'EXTEND %{{ {code[0]} %}}')
        # those of two blocks are set afterwards, and not copied
        extends.append((code, i) if c['extend'] == 1 else extends[c['copy']] if c['copy'] is not None else ([], i))
        later.append(code)
    order = list(dict.fromkeys(kinds))
    shares = [t for k in order for t in blocks[k]['share']]
    shares = list(dict.fromkeys(shares))
    show = [f'#ifdef SHARE_{n}\nprintf("share {n} %d\\n", share_{n});\n#endif' for n in names]
    declared = [f'_c{i}_var._parameters.d_{t} = {i};' for i, k in enumerate(kinds) for t in dict.fromkeys(blocks[k]['declare'])]
    out += ['INITIALIZE %{', *show, '%}', *trace, 'FINALLY %{', *declared, '%}', 'END']
    text = '\n'.join(out)
    instr = L.parse_instr(text, comps)
    for i, c in enumerate(prog['comps']):
        if c['extend'] == 2:
            instr.components[i].EXTEND(*later[i])
            extends[i] = (later[i], i)
    what = '\n'.join(comps.values()) + text + (' [McXtrace]' if not prog['mcstas'] else '') + ' EXTEND ' + ', '.join(f'c{i} {c["extend"]}' for i, c in enumerate(prog['comps'])) + ':'
    log = cgen.simulate(instr, [f'-n{prog["n"]}', '-t'], prog['mcstas']).splitlines()
    got = [l.split() for l in log if l.startswith('share ')]
    eq([g[1] for g in sorted(got, key=lambda g: int(g[2]))], shares, f'{what} order of SHARE blocks')
    for s in CODE_SECTIONS:
        want = [f'{s} {t} c{i}' for i, k in enumerate(kinds) for t in blocks[k][s]]
        if s == 'trace':
            want = []
            for i, k in enumerate(kinds):
                want += [f'trace {t} c{i}' for t in blocks[k]['trace']]
                want += [f'extend {extends[i][1]}.{j} c{i}' for j in range(len(extends[i][0]))]
            want = want * prog['n']
        eq([l for l in log if l.startswith((s + ' ',) + (('extend ',) if s == 'trace' else ()))], want, f'{what} {s}')
    rec.label('shared-type' if any(declared_type(t) != 'int' for k in order for t in blocks[k]['declare']) else 'int', *{f'{s}-{min(3, len(blocks[k][s]))}' for k in order for s in ALL_SECTIONS})
    rec.nontrivial(any(len(blocks[k][s]) > 1 for k in order for s in CODE_SECTIONS) and any(prog['types'][k]['copy'] is not None for k in order), key=[list(comps.values()), text])
