"""O01: chains of AT/ROTATED placements have the absolute position and orientation that McCode defines."""
import numpy as np
from hypothesis import strategies as st

from vlib import cexpr, engine, gen_expr, geom
from vlib.engine import check

SUBS, sub = engine.registry()
RULE = ('non-trivial: at least two components of which one is placed relative to a component that is itself rotated, '
        'keyed by the whole chain')
ASSUMPTIONS = ['trigonometric functions in the expressions of the library take degrees, as its own tests state',
               'the reference model is the McCode definition: P = P_at + R_at^T at, R = Rz Ry Rx R_rot']
IDS = ['a', 'b', 'c', 'd']
ENVS = [dict(a=12.5, b=-33.0, c=0.75, d=101.0), dict(a=90, b=0, c=-90, d=180), dict(a=0, b=1, c=0, d=-2)]

ANGLES = ['0', '90', '-90', '180', '-180', '270', '45', '-30', '12.5', '0.1', '360', '-1e-3', '0.0', '60', '120']
LENGTHS = ['0', '1', '-1', '0.5', '10', '-2.25', '1e-3', '3', '0.0', '100']


def constant(pool):
    return st.one_of(st.sampled_from(pool), st.floats(-200, 200, allow_nan=False).map(lambda x: repr(round(x, 4))),
                     st.integers(-360, 360).map(str))


def coord(pool, symbolic):
    c = constant(pool)
    if not symbolic:
        return c
    s = st.one_of(st.sampled_from(IDS), st.sampled_from(IDS).map(lambda n: '-' + n),
                  gen_expr.tree(2, ids=IDS, ops='lin').map(lambda t: cexpr.render(cexpr.avoid_quirks(t))))
    return st.one_of(c, c, s)


@st.composite
def chain(draw, symbolic, copies=True):
    n = draw(st.integers(1, 5))
    out = []
    for i in range(n):
        def ref():
            k = draw(st.integers(0, 9))
            if k == 0:
                return ['ABSOLUTE']
            if i == 0:
                return ['RELATIVE ABSOLUTE'] if k == 1 else ['ABSOLUTE']
            if k == 1:
                return ['RELATIVE ABSOLUTE']
            if k <= 4:
                m = draw(st.integers(1, i))
                return ['PREVIOUS', m if m > 1 or draw(st.booleans()) else 0]
            return ['name', draw(st.integers(0, i - 1))]
        at = [draw(coord(LENGTHS, symbolic)) for _ in range(3)]
        rot = None
        if draw(st.integers(0, 3)):
            keep = draw(st.sampled_from([(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (0, 0, 0)]))
            rot = [draw(coord(ANGLES, symbolic)) if k else '0' for k in keep]
        out.append(dict(at=at, at_ref=ref(), rot=rot, rot_ref=ref() if rot else None))
    return out


def ref_text(r):
    if r[0] == 'name':
        return f'RELATIVE c{r[1]}'
    if r[0] == 'PREVIOUS':
        return 'RELATIVE PREVIOUS' + (f'({r[1]})' if r[1] else '')
    return r[0]


def ref_index(r, i):
    return r[1] if r[0] == 'name' else i - (r[1] or 1) if r[0] == 'PREVIOUS' else None


def text(comps):
    lines = ['DEFINE INSTRUMENT place(a, b, c, d)', 'TRACE']
    for i, c in enumerate(comps):
        s = f'COMPONENT c{i} = Thing() AT ({", ".join(c["at"])}) {ref_text(c["at_ref"])}'
        if c['rot'] is not None:
            s += f' ROTATED ({", ".join(c["rot"])}) {ref_text(c["rot_ref"])}'
        lines.append(s)
    return '\n'.join(lines + ['END', ''])


def value(s, env):
    return float(cexpr.evaluate(cexpr.parse(s), env))


def model(comps, env):
    """Absolute (position, axes) of every component"""
    out = []
    for i, c in enumerate(comps):
        k = ref_index(c['at_ref'], i)
        at_ref = out[k] if k is not None else None
        if c['rot'] is None:
            rot, rot_ref = [0, 0, 0], at_ref
        else:
            j = ref_index(c['rot_ref'], i)
            rot, rot_ref = [value(x, env) for x in c['rot']], out[j] if j is not None else None
        out.append(geom.place([value(x, env) for x in c['at']], at_ref, rot, rot_ref))
    return out


def product(parts, env, degrees=True):
    m = np.eye(4)
    for p in parts.stack():
        m = geom.seitz(p.axes, env, degrees) @ m
    return m


def compare(orient, want, env, what):
    p, r = want
    got_p = geom.vec(orient.position(), env)
    check(geom.close(got_p, p), f'{what}: position {got_p}, expected {p}')
    got_r = geom.mat(orient.rotation(), env)
    check(geom.close(got_r, r), f'{what}: rotation (axes)\n{got_r}\nexpected\n{r}')
    got_c = geom.mat(orient.rotation('coordinates'), env)
    check(geom.close(got_c, r.T), f'{what}: rotation (coordinates)\n{got_c}\nexpected\n{r.T}')
    # the chains of parts, which code generation uses
    m = product(orient.position_parts(), env)
    check(geom.close(m[:3, 3], p) and geom.close(m[:3, :3], np.eye(3)), f'{what}: the position parts give\n{m}\nexpected {p}')
    m = product(orient.rotation_parts(), env)
    check(geom.close(m[:3, :3], r) and geom.close(m[:3, 3], [0, 0, 0]), f'{what}: the rotation parts give\n{m}\nexpected\n{r}')


def depth(comps):
    """Whether some component refers to one which is rotated"""
    rotated = []
    hit = False
    for i, c in enumerate(comps):
        ks = [ref_index(c['at_ref'], i)] + ([ref_index(c['rot_ref'], i)] if c['rot'] is not None else [])
        hit = hit or any(k is not None and rotated[k] for k in ks)
        base = ks[1] if c['rot'] is not None else ks[0]
        rotated.append((c['rot'] is not None and any(x not in ('0', '0.0') for x in c['rot'])) or (base is not None and rotated[base]))
    return hit


def envs_for(comps):
    out = []
    for env in ENVS:
        try:
            model(comps, env)
            out.append(env)
        except cexpr.Undefined:
            pass
    return out


def run(comps, orients, rec, evaluate_too=True):
    from mccode_antlr.common import Expr
    envs = envs_for(comps)
    for env in envs:
        wants = model(comps, env)
        known = {k: Expr.best(v) for k, v in env.items()}
        for i, (o, w) in enumerate(zip(orients, wants)):
            compare(o, w, env, f'c{i} at {env}')
            if evaluate_too:
                p = [x.evaluate(known) for x in o.position()]
                check(geom.close(geom.vec(p, {}), w[0]), f'c{i}: position with {env} is {p}, expected {w[0]}')
                r = [x.evaluate(known) for x in o.rotation()]
                check(geom.close(geom.mat(r, {}), w[1]), f'c{i}: rotation with {env} is {r}, expected\n{w[1]}')
    refs = {c['at_ref'][0] for c in comps} | {c['rot_ref'][0] for c in comps if c['rot'] is not None}
    rec.label(*[r.replace(' ', '_') for r in refs])
    if any(c['rot'] is None for c in comps):
        rec.label('rotated_omitted')
    rec.nontrivial(envs and depth(comps))


def parsed(comps):
    from vlib import lib
    instr = lib.parse_instr(text(comps), {'Thing': 'DEFINE COMPONENT Thing\nTRACE %{ %}\nEND\n'})
    check([c.name for c in instr.components] == [f'c{i}' for i in range(len(comps))], 'component names')
    return [c.orientation for c in instr.components]


@sub('text_constant', chain(False), quick=1100, thorough=30000, rule='instrument text, constant coordinates')
def text_constant(case, rec):
    run(case, parsed(case), rec, evaluate_too=False)


@sub('text_symbolic', chain(True), quick=500, thorough=20000, rule='instrument text, coordinates which depend on parameters')
def text_symbolic(case, rec):
    run(case, parsed(case), rec)


@sub('direct', chain(True), quick=500, thorough=20000, rule='placements built with Orient.from_dependent_orientation(s)')
def direct(case, rec):
    from mccode_antlr.common import Expr
    from mccode_antlr.instr.orientation import Orient, Vector, Angles
    orients = []
    for i, c in enumerate(case):
        at = Vector(*[Expr.parse(x) for x in c['at']])
        rot = Angles(*[Expr.parse(x) for x in c['rot'] or ['0', '0', '0']])
        k = ref_index(c['at_ref'], i)
        j = k if c['rot'] is None else ref_index(c['rot_ref'], i)
        ar, rr = [None if x is None else orients[x] for x in (k, j)]
        if j == k:
            orients.append(Orient.from_dependent_orientation(ar, at, rot))
            rec.label('single')
        else:
            orients.append(Orient.from_dependent_orientations(ar, at, rr, rot))
    run(case, orients, rec)


@sub('assembled', chain(True), quick=300, thorough=10000, rule='the same chains through the Assembler')
def assembled(case, rec):
    from vlib import lib
    a = lib.assembler({'Thing': 'DEFINE COMPONENT Thing\nTRACE %{ %}\nEND\n'})
    for n in IDS:
        a.parameter(f'double {n}')
    insts = []
    for i, c in enumerate(case):
        def conv(v, r):
            k = ref_index(r, i)
            if r[0] == 'RELATIVE ABSOLUTE' or r[0] == 'ABSOLUTE':
                return (v, 'ABSOLUTE')
            return (v, insts[k] if k % 2 else f'c{k}')
        at = conv(c['at'], c['at_ref'])
        rot = None if c['rot'] is None else conv(c['rot'], c['rot_ref'])
        insts.append(a.component(f'c{i}', 'Thing', at=at, rotate=rot))
    run(case, [c.orientation for c in a.instrument.components], rec)
