"""O02: reducing, inverting and combining placements is matrix algebra."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import engine, geom
from vlib.engine import check

SUBS, sub = engine.registry()
RULE = 'non-trivial: the transformation is not the identity and the history contains two operations or more'
ASSUMPTIONS = ['the trigonometry of symbolic angles is in degrees, or all in radians; one case never mixes the two',
               'Orient addition and subtraction are not part of the property (they are not used and not documented)']
IDS = ['a', 'b', 'c']
ENVS_DEG = [dict(a=17.0, b=-64.0, c=131.0), dict(a=90, b=0, c=-90), dict(a=-170.0, b=123.0, c=3.0)]
ENVS_RAD = [dict(a=0.3, b=-1.1, c=2.3), dict(a=math.pi / 2, b=0, c=-math.pi / 2), dict(a=-3.0, b=2.1, c=0.05)]

NUMS_DEG = [0, 90, -90, 180, -180, 270, 45, -30, 12.5, 360, 0.001, 60]
NUMS_RAD = [0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 1, -0.5, 0.25, 3, 0.001]
LENS = [0, 1, -1, 0.5, 2, -3.25, 10, 0.01]


def angle(sym):
    num = st.one_of(st.integers(0, 11), st.floats(-190, 190, allow_nan=False).map(lambda x: round(x, 3))).map(lambda v: ['n', v])
    ids = st.sampled_from(IDS).map(lambda s: ['id', s])
    lin = st.tuples(st.sampled_from(IDS), st.sampled_from(['+', '-', '*']), st.integers(1, 3)).map(lambda v: ['lin', *v])
    return st.one_of(num, num, ids, lin) if sym else num


def length(sym):
    num = st.one_of(st.sampled_from(LENS), st.floats(-20, 20, allow_nan=False).map(lambda x: round(x, 3))).map(lambda v: ['l', v])
    ids = st.sampled_from(IDS).map(lambda s: ['id', s])
    return st.one_of(num, num, ids) if sym else num


def part(sym):
    rot = st.tuples(st.sampled_from('XYZ'), angle(sym)).map(list)
    tr = st.tuples(st.just('T'), st.tuples(length(sym), length(sym), length(sym)).map(list)).map(list)
    gen = st.tuples(st.just('G'), st.tuples(angle(False), angle(False), angle(False)).map(list),
                    st.tuples(length(False), length(False), length(False)).map(list)).map(list)
    return st.one_of(rot, rot, tr, gen)


def op():
    i = st.integers(0, 9)
    return st.one_of(
        st.tuples(st.sampled_from(['copy', 'shallow', 'reduce', 'reduce', 'inverse', 'resolve']), i),
        st.tuples(st.sampled_from(['add', 'sub', 'add', 'sub']), i, i),
        st.tuples(st.sampled_from(['addpart', 'subpart']), i, part(True)),
        st.tuples(st.just('dep'), i, st.tuples(*[angle(True)] * 3).map(list), st.tuples(*[length(True)] * 3).map(list))).map(list)


class Ctx:
    def __init__(self, degrees):
        self.degrees = degrees
        self.envs = ENVS_DEG if degrees else ENVS_RAD
        self.nums = NUMS_DEG if degrees else NUMS_RAD

    def expr(self, s):
        from mccode_antlr.common import Expr
        if s[0] == 'id':
            return Expr.id(s[1])
        if s[0] == 'lin':
            x = Expr.id(s[1])
            return x + s[3] if s[2] == '+' else x - s[3] if s[2] == '-' else x * s[3]
        return Expr.float(self.number(s))

    def number(self, s):
        if s[0] == 'l':
            return s[1]
        if isinstance(s[1], int):
            return self.nums[s[1] % len(self.nums)]
        return s[1] if self.degrees else s[1] * geom.DEG

    def value(self, s, env):
        if s[0] == 'id':
            return env[s[1]]
        if s[0] == 'lin':
            x = env[s[1]]
            return x + s[3] if s[2] == '+' else x - s[3] if s[2] == '-' else x * s[3]
        return self.number(s)

    def part(self, p):
        from mccode_antlr.instr import orientation as o
        if p[0] in 'XYZ':
            return {'X': o.RotationX, 'Y': o.RotationY, 'Z': o.RotationZ}[p[0]](v=self.expr(p[1]), degrees=self.degrees)
        if p[0] == 'T':
            return o.TranslationPart(v=o.Vector(*[self.expr(x) for x in p[1]]))
        r = o.Part(o.Seitz.from_rotation(o.Rotation.from_angles(o.Angles(*[self.expr(x) for x in p[1]]), degrees=self.degrees)))
        return o.TranslationPart(v=o.Vector(*[self.expr(x) for x in p[2]])) * r

    def part_matrix(self, p, env):
        m = np.eye(4)
        if p[0] in 'XYZ':
            v = [0, 0, 0]
            v['XYZ'.index(p[0])] = self.value(p[1], env)
            m[:3, :3] = geom.rot_axes(v, self.degrees)
        elif p[0] == 'T':
            m[:3, 3] = [self.value(x, env) for x in p[1]]
        else:
            m[:3, :3] = geom.rot_axes([self.value(x, env) for x in p[1]], self.degrees)
            m[:3, 3] = [self.value(x, env) for x in p[2]]
        return m

    def chain_matrix(self, parts, env):
        m = np.eye(4)
        for p in parts.stack():
            m = geom.seitz(p.axes, env, self.degrees) @ m
        return m


def identity_like(m):
    return np.allclose(m, np.eye(4))


def interesting(ms):
    return any(not identity_like(m) for m in ms)


@sub('parts', st.tuples(st.booleans(), st.lists(part(True), max_size=4), st.lists(part(True), min_size=1, max_size=3),
                        st.lists(op(), min_size=1, max_size=6)).map(list), quick=700, thorough=25000,
     rule='histories of copy, reduce, inverse, +, -, resolve over chains of constant and symbolic parts')
def parts(case, rec):
    from mccode_antlr.instr import orientation as o
    ctx = Ctx(case[0])

    def mats(ps):
        out = []
        for env in ctx.envs:
            m = np.eye(4)
            for p in ps:
                m = ctx.part_matrix(p, env) @ m
            out.append(m)
        return out
    made = [(o.Parts(tuple(ctx.part(p) for p in ps)), mats(ps)) for ps in case[1:3]]
    kinds = set()
    for step in case[3]:
        i = step[1] % len(made)
        src, ms = made[i]
        if len(src.stack()) > 8:      # the symbolic expressions grow quickly
            continue
        k = step[0]
        kinds.add(k)
        what = f'{k} of {src}'
        if k == 'copy':
            new = (src.copy(), ms)
        elif k == 'shallow':
            new = (src.copy(deep=False), ms)
        elif k == 'reduce':
            new = (src.reduce(), ms)
            st_ = new[0].stack()
            check(not any(x.is_constant and y.is_constant for x, y in zip(st_, st_[1:])),
                  f'{what} leaves neighbouring constant parts: {new[0]}')
        elif k == 'inverse':
            new = (src.inverse(), [np.linalg.inv(m) for m in ms])
        elif k == 'resolve':
            r = src.resolve()
            new = (o.Parts((r,)), ms)
            for env, m in zip(ctx.envs, ms):
                for which, w in ((None, m[:3, :3]), ('axes', m[:3, :3]), ('coordinates', m[:3, :3].T)):
                    got = geom.mat(src.rotation(which), env, ctx.degrees)
                    check(geom.close(got, w), f'rotation({which}) of {src} is\n{got}\nexpected\n{w}')
                    got = geom.mat(r.rotation(which), env, ctx.degrees)
                    check(geom.close(got, w), f'rotation({which}) of the resolved {src} is\n{got}\nexpected\n{w}')
                got = geom.vec(src.position(), env, ctx.degrees)
                check(geom.close(got, m[:3, 3]), f'position of {src} is {got}, expected {m[:3, 3]}')
        elif k in ('add', 'sub'):
            other, ns = made[step[2] % len(made)]
            if len(other.stack()) > 8:
                continue
            what = f'{src} {k} {other}'
            if k == 'add':
                new = (src + other, [n @ m for m, n in zip(ms, ns)])
            else:
                new = (src - other, [np.linalg.inv(n) @ m for m, n in zip(ms, ns)])
        elif k in ('addpart', 'subpart'):
            p = ctx.part(step[2])
            ns = mats([step[2]])
            if k == 'addpart':
                new = (src + p, [n @ m for m, n in zip(ms, ns)])
            else:
                new = (src - p, [np.linalg.inv(n) @ m for m, n in zip(ms, ns)])
        else:
            at = o.Vector(*[ctx.expr(x) for x in step[3]])
            an = o.Angles(*[ctx.expr(x) for x in step[2]])
            new = (o.Parts.from_dependent_chain(src, at=at, rotated=an, degrees=ctx.degrees), [])
            for env, m in zip(ctx.envs, ms):
                n = np.eye(4)
                n[:3, :3] = geom.rot_axes([ctx.value(x, env) for x in step[2]], ctx.degrees)
                n[:3, 3] = [ctx.value(x, env) for x in step[3]]
                new[1].append(n @ m)
        made.append(new)
        for env, m in zip(ctx.envs, new[1]):
            got = ctx.chain_matrix(new[0], env)
            check(geom.close(got, m), f'{what} is {new[0]}, which at {env} is\n{got}\nexpected\n{m}')
    for p, ms in made:
        for env, m in zip(ctx.envs, ms):
            got = ctx.chain_matrix(p, env)
            check(geom.close(got, m), f'{p} was changed by a later operation: at {env} it is\n{got}\nexpected\n{m}')
    rec.label('degrees' if ctx.degrees else 'radians', *sorted(kinds))
    rec.nontrivial(len(kinds) >= 2 and interesting(made[-1][1]))


@sub('identity', st.tuples(st.booleans(), st.lists(part(True), min_size=1, max_size=4)).map(list), quick=250, thorough=8000,
     rule='a chain combined with its inverse, either way round and reduced, is the identity')
def identity(case, rec):
    from mccode_antlr.instr import orientation as o
    ctx = Ctx(case[0])
    p = o.Parts(tuple(ctx.part(x) for x in case[1]))
    for name, q in (('p + inverse', p + p.inverse()), ('inverse + p', p.inverse() + p), ('p - p', p - p),
                    ('reduced', (p + p.inverse()).reduce()), ('reduced inverse', (p - p.reduce()).reduce())):
        for env in ctx.envs:
            got = ctx.chain_matrix(q, env)
            check(geom.close(got, np.eye(4)), f'{name} of {p} is {q}, which at {env} is\n{got}')
    consts = all(x.is_constant for x in p.stack())
    if consts:
        r = (p - p).resolve()
        rec.label('constant')
        check(geom.close(geom.seitz(r.axes, {}), np.eye(4)), 'resolved')
    rec.nontrivial(interesting([ctx.chain_matrix(p, ctx.envs[0])]))


@sub('angles', st.tuples(st.booleans(), st.lists(st.tuples(angle(False), angle(False), angle(False)).map(list), min_size=1, max_size=3)).map(list),
     quick=700, thorough=25000, rule='the angles extracted from a constant rotation rebuild it (including gimbal lock)')
def angles(case, rec):
    from mccode_antlr.instr import orientation as o
    ctx = Ctx(case[0])
    want = np.eye(3)
    chain = o.Parts()
    for a in case[1]:
        v = [ctx.value(x, {}) for x in a]
        want = geom.rot_axes(v, ctx.degrees) @ want
        chain = o.Parts.from_dependent_chain(chain, rotated=o.Angles(*[ctx.expr(x) for x in a]), degrees=ctx.degrees)
    got = geom.mat(chain.rotation(), {})
    check(geom.close(got, want), f'rotation of {case[1]} is\n{got}\nexpected\n{want}')
    whole = o.Part(chain.resolve().axes)
    a = whole.angles()
    vals = [geom.num(x, {}) for x in a]
    back = geom.rot_axes(vals)
    # near the gimbal lock the angles lose about half of the digits
    check(geom.close(back, want, 1e-5), f'angles {vals} of the rotation {case[1]} rebuild\n{back}\nexpected\n{want}')
    if ctx.degrees:
        orient = o.Orient(o.Parts(), chain)
        vals = [geom.num(x, {}) for x in orient.angles()]
        check(geom.close(geom.rot_axes(vals), want, 1e-5), f'Orient.angles {vals} of the rotation {case[1]}')
    # axis and angle: rotating the coordinates about the axis
    if abs(np.trace(want) - 3) > 1e-6:
        axis, angle_, unit = whole.rotation_axis_angle
        n = geom.vec(axis, {})
        t = geom.num(angle_, {}) * (geom.DEG if unit == 'degrees' else 1)
        k = geom.vec([x for x in axis], {})
        check(geom.close(np.linalg.norm(n), 1), f'axis {n} is no unit vector')
        c = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        r = np.eye(3) + math.sin(t) * c + (1 - math.cos(t)) * c @ c
        check(geom.close(r, want.T, 1e-5), f'axis {n} and angle {t} of\n{want}\nrotate coordinates by\n{r}')
        rec.label('axis')
        s = whole.specialization()
        check(geom.close(geom.seitz(s.axes, {})[:3, :3], want, 1e-5), f'specialization of {whole} is {s}')
    if abs(abs(want[2, 0]) - 1) < 1e-9:
        rec.label('gimbal')
    rec.label('degrees' if ctx.degrees else 'radians')
    rec.nontrivial(not np.allclose(want, np.eye(3)))


@sub('symbolic_angles', st.lists(st.tuples(angle(True), angle(True), angle(True)).map(list), min_size=1, max_size=2),
     quick=150, thorough=5000, rule='the angles extracted from a symbolic rotation rebuild it')
def symbolic_angles(case, rec):
    from mccode_antlr.instr import orientation as o
    ctx = Ctx(True)
    chain = o.Parts()
    for a in case:
        chain = o.Parts.from_dependent_chain(chain, rotated=o.Angles(*[ctx.expr(x) for x in a]))
    got = o.Orient(o.Parts(), chain).angles()
    n = 0
    for env in ENVS_DEG + [dict(a=5, b=6, c=-7)]:
        want = np.eye(3)
        for a in case:
            want = geom.rot_axes([ctx.value(x, env) for x in a]) @ want
        if abs(abs(want[2, 0]) - 1) < 1e-9:
            continue      # gimbal lock: no formula without case distinction
        try:
            vals = [geom.num(x, env) for x in got]
        except AssertionError:
            raise
        back = geom.rot_axes(vals)
        check(geom.close(back, want, 1e-5), f'angles {got} of {chain} at {env} are {vals}, which rebuild\n{back}\nexpected\n{want}')
        n += 1
    rec.nontrivial(n and not chain.resolve().is_constant)


def vec3(sym):
    return st.tuples(length(sym), length(sym), length(sym)).map(list)


@sub('algebra', st.tuples(st.booleans(), st.tuples(*[angle(True)] * 3).map(list), st.tuples(*[angle(True)] * 3).map(list),
                          vec3(True), vec3(True), length(True)).map(list), quick=500, thorough=15000,
     rule='Vector, Matrix, Rotation and Seitz operations against numpy')
def algebra(case, rec):
    from mccode_antlr.instr import orientation as o
    deg, a1, a2, v1, v2, f = case
    ctx = Ctx(deg)
    A1, A2 = [o.Angles(*[ctx.expr(x) for x in a]) for a in (a1, a2)]
    V1, V2 = [o.Vector(*[ctx.expr(x) for x in v]) for v in (v1, v2)]
    F = ctx.expr(f)
    R1, R2 = [o.Rotation.from_angles(a, degrees=deg) for a in (A1, A2)]
    S1 = o.Seitz.from_vector(V1) * o.Seitz.from_rotation(R1)
    S2 = o.Seitz.from_vector(V2) * o.Seitz.from_rotation(R2)
    M1 = o.Matrix(*R1)
    for env in ctx.envs:
        r1, r2 = [geom.rot_axes([ctx.value(x, env) for x in a], deg) for a in (a1, a2)]
        w1, w2 = [np.array([ctx.value(x, env) for x in v]) for v in (v1, v2)]
        fv = ctx.value(f, env)

        def same(what, got, want):
            want = np.asarray(want, float)
            if want.shape == (3, 3):
                g = geom.mat(got, env, deg)
            elif want.shape == (4, 4):
                g = geom.seitz(got, env, deg)
            elif want.shape == (3,):
                g = geom.vec(got, env, deg)
            else:
                g = geom.num(got, env, deg)
            check(geom.close(g, want), f'{what} at {env}: {g}, expected {want}')
        m1, m2 = np.eye(4), np.eye(4)
        m1[:3, :3], m1[:3, 3], m2[:3, :3], m2[:3, 3] = r1, w1, r2, w2
        same('Rotation.from_angles', R1, r1)
        same('Rotation.inverse', R1.inverse(), r1.T)
        same('Rotation * Rotation', R1 * R2, r1 @ r2)
        same('Rotation * Vector', R1 * V1, r1 @ w1)
        same('Rotation - Rotation', R1 - R2, r1 - r2)
        same('Seitz product', S1, m1)
        same('Seitz * Seitz', S1 * S2, m1 @ m2)
        same('Seitz.inverse', S1.inverse(), np.linalg.inv(m1))
        same('Seitz.rotation', S1.rotation(), r1)
        same('Seitz.vector', S1.vector(), w1)
        same('Seitz.trace', S1.trace(), np.trace(r1))
        same('Matrix * Matrix', M1 * o.Matrix(*R2), r1 @ r2)
        same('Matrix * Vector', M1 * V1, r1 @ w1)
        same('Matrix * number', M1 * F, r1 * fv)
        same('Matrix + Matrix', M1 + o.Matrix(*R2), r1 + r2)
        same('Matrix - Matrix', M1 - o.Matrix(*R2), r1 - r2)
        same('abs(Matrix)', abs(M1), abs(r1))
        same('Vector * Matrix', V1 * M1, w1 @ r1)
        same('Vector * Rotation', V1 * R1, w1 @ r1)
        same('Vector * number', V1 * F, w1 * fv)
        if fv:
            same('Vector / number', V1 / F, w1 / fv)
        same('Vector + Vector', V1 + V2, w1 + w2)
        same('Vector - Vector', V1 - V2, w1 - w2)
        same('cross product', V1.cross_matrix() * V2, np.cross(w1, w2))
        same('length', V1.length(), np.linalg.norm(w1))
        same('Angles +', A1 + A2, [ctx.value(x, env) + ctx.value(y, env) for x, y in zip(a1, a2)])
        same('Angles -', A1 - A2, [ctx.value(x, env) - ctx.value(y, env) for x, y in zip(a1, a2)])
        axes, coords = o._rotation_angles_to_axes_coordinates(A1, degrees=deg) if deg else (R1, R1.inverse())
        same('axes', axes, r1)
        P = o.Part(S1)
        same('Part.axes', P.axes, m1)
        same('Part.coordinates', P.coordinates, np.linalg.inv(m1))
        same('Part.inverse', P.inverse().axes, np.linalg.inv(m1))
        same('Part * Part', (P * o.Part(S2)).axes, m1 @ m2)
        if all(x.is_constant for x in S1):
            check(P.is_constant, 'is_constant')
            check(V1.is_null() == (not w1.any()), 'Vector.is_null')
            same('round', round(M1, 3), np.round(r1, 3))
            rec.label('constant')
    rec.label('degrees' if deg else 'radians')
    rec.nontrivial(not np.allclose(r1, np.eye(3)) and w1.any())


@sub('orient', st.tuples(st.lists(st.tuples(vec3(True), st.tuples(*[angle(True)] * 3).map(list)).map(list), min_size=1, max_size=3)).map(list),
     quick=250, thorough=8000, rule='Orient: combine, reduce and inverse of placement chains')
def orient(case, rec):
    from mccode_antlr.instr import orientation as o
    ctx = Ctx(True)
    ori = None
    for v, a in case[0]:
        ori = o.Orient.from_dependent_orientation(ori, o.Vector(*[ctx.expr(x) for x in v]), o.Angles(*[ctx.expr(x) for x in a]))
    for env in ctx.envs:
        p, r = None, None
        for v, a in case[0]:
            ref = None if p is None else (p, r)
            p, r = geom.place([ctx.value(x, env) for x in v], ref, [ctx.value(x, env) for x in a], ref)
        red = ori.reduce()
        inv = ori.inverse()
        for name, x in (('reduced', red), ('itself', ori), ('inverse of inverse', inv.inverse())):
            check(geom.close(geom.vec(x.position(), env), p), f'{name}: position {x.position()}, expected {p}')
            check(geom.close(geom.mat(x.rotation(), env), r), f'{name}: rotation, expected {r}')
            check(geom.close(geom.mat(x.rotation('coordinates'), env), r.T), f'{name}: coordinate rotation, expected {r.T}')
        check(geom.close(geom.mat(inv.rotation(), env), r.T), 'rotation of the inverse')
        comb = ori.combine()
        want = np.eye(4)
        want[:3, :3], want[:3, 3] = r, p
        got = ctx.chain_matrix(comb, env)
        check(geom.close(got, want), f'combined {comb} at {env} is\n{got}\nexpected\n{want}')
        got = geom.seitz(comb.resolve().axes, env)
        check(geom.close(got, want), f'combined and resolved {comb} at {env} is\n{got}\nexpected\n{want}')
        got = ctx.chain_matrix(comb.reduce(), env)
        check(geom.close(got, want), f'combined and reduced {comb} at {env} is\n{got}\nexpected\n{want}')
    rec.nontrivial(not np.allclose(r, np.eye(3)) and p.any())
