"""Instruments which log what happens to every particle, and the reference model of what should happen."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import cexpr, geom

COORD = ['0', '1', '-2', '0.5', 'D', '-D', 'D+1', '2*D', '3']
ANGLE = ['0', '90', '-30', '180', '45', '10*D', '-D', '20+D']
CONDS = ['(n1 % 2) == 0', '(n1 % 3) == 1', 'n1 + n2 < 4', 'n2 < 2', 'A > 1', 'n1 > 0 && n2 < 3', 'p > 0.3', 'B == 2 || n1 == 1',
         'n1 < B', '(n1 % 2) != A', 'D > 0.25', 'n2 < 5']
ACTS = '.msbrRaAnN'
STEP = 6364136223846793005, 1442695040888963407      # from one number of the random sequence to the next
KINDS = ['act', 'act', 'act', 'arm', 'idle']


@st.composite
def extend(draw):
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(['n1', 'n1', 'n2', 'n2', 'move', 'scatter', 'absorb', 'uid']))
        ops.append([k, draw(st.integers(1, 2)) if k in ('n1', 'n2') else draw(st.integers(2, 4)), draw(st.integers(0, 3))])
    return ops


def uids(prog):
    """the numbers of the particles: those of one process follow those of the process before it"""
    first = (prog['rank'] or 0) * prog['n']
    return range(first, first + prog['n'])


@st.composite
def program(draw, funnel=False, hi=8):
    n = draw(st.sampled_from([0] + [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12][:hi] * 3))
    types = []
    for i in range(draw(st.integers(1, 4))):
        types.append(dict(name=f'T{i}', kind=draw(st.sampled_from(KINDS)), noacc=draw(st.sampled_from([False, False, False, True])),
                          sections=draw(st.lists(st.sampled_from(['initialize', 'save', 'finally', 'display']), unique=True, max_size=4))))
    comps = []
    for i in range(n):
        ref = st.one_of(st.none(), st.integers(0, i - 1)) if i else st.none()
        c = dict(type=draw(st.integers(0, len(types) - 1)), seed=draw(st.integers(0, 5)),
                 acts=''.join(draw(st.lists(st.sampled_from('.mmmsssbbbrrRaaAnnN'), min_size=1, max_size=4))), copy=None,
                 at=draw(st.lists(st.sampled_from(COORD), min_size=3, max_size=3)), at_ref=draw(ref), rot=None, rot_ref=None,
                 previous=draw(st.booleans()), when=None, group=None, split=None, cpu=False, extend=None, jumps=[])
        if draw(st.booleans()):
            c['rot'] = draw(st.lists(st.sampled_from(ANGLE), min_size=3, max_size=3))
            c['rot_ref'] = draw(ref)
        if draw(st.integers(0, 2)) == 0:
            c['when'] = draw(st.sampled_from(CONDS))
        if draw(st.integers(0, 1)) == 0:
            c['extend'] = draw(extend())
        if funnel and draw(st.integers(0, 2)) == 0:
            c['cpu'] = True
        comps.append(c)
    # groups: runs of neighbours
    for g in range(draw(st.integers(0, 2)) if n else 0):
        a = draw(st.integers(0, n - 1))
        b = min(n - 1, a + draw(st.integers(0, 3)))
        if all(comps[k]['group'] is None for k in range(a, b + 1)):
            for k in range(a, b + 1):
                comps[k]['group'] = f'g{g}'
    has_split = n > 0 and draw(st.integers(0, 2)) == 0
    if has_split:
        for _ in range(draw(st.integers(1, 2))):
            k = draw(st.integers(0, n - 1))
            if comps[k]['group'] is None or leader(comps, k):
                comps[k]['split'] = draw(st.sampled_from(['2', '3', 'A+1', 'B', '']))
    def possible(k, t):
        if not 0 <= t < n or comps[k]['group'] is not None or (comps[t]['group'] is not None and not leader(comps, t)):
            return False
        return not has_split or t > k and all(comps[j]['split'] is None for j in range(k + 1, t + 1))
    for _ in range(draw(st.integers(0, 3)) if n and (not has_split or draw(st.booleans())) else 0):
        before = [i for i, c in enumerate(comps) if c['jumps']]
        k = draw(st.one_of(st.integers(0, n - 1), st.sampled_from(before)) if before else st.integers(0, n - 1))
        t = draw(st.integers(0, n - 1))
        if not possible(k, t) or len(comps[k]['jumps']) > 2:
            continue
        iterate = draw(st.booleans()) and t <= k
        comps[k]['jumps'].append(dict(target=t, how=draw(st.sampled_from(['name', 'relative'])), iterate=iterate,
                                      cond=draw(st.sampled_from(['1', '2', '3', 'B', 'A+1'])) if iterate else draw(st.sampled_from(CONDS))))
    if n > 1 and draw(st.integers(0, 1)) == 0:
        i = draw(st.integers(1, n - 1))
        k = draw(st.integers(0, i - 1))
        c, d = comps[k], comps[i]
        jumps = [dict(j, target=j['target'] + i - k if j['how'] == 'relative' else j['target']) for j in c['jumps']]
        if c['group'] is None and d['group'] is None and all(possible(i, j['target']) for j in jumps):
            d.update({x: c[x] for x in ('type', 'seed', 'acts', 'when', 'extend')}, jumps=jumps, copy=k)
    return dict(mcstas=draw(st.sampled_from([True, True, False])), types=types, comps=comps, funnel=funnel,
                n=draw(st.integers(1, 4)), values=dict(A=draw(st.integers(0, 2)), B=draw(st.integers(1, 3)),
                                                       D=draw(st.sampled_from([0.0, 0.25, 1.5, -1.0]))),
                code=draw(st.lists(st.sampled_from(['initialize', 'save', 'finally']), unique=True, max_size=3)),
                names=draw(st.sampled_from(['c', 'Comp_', 'x', 'T'])), seed=draw(st.integers(1, 4)), again=draw(st.integers(0, 3)) == 0,
                rank=draw(st.sampled_from([None, None, None, 0, 1, 3])))        # of a process of several


def leader(comps, k):
    return k == 0 or comps[k - 1]['group'] != comps[k]['group']


def name(prog, i):
    return f'{prog["names"]}{i}'.replace('T', 'Tc')


def comp_text(prog, t):
    v = 'v' if prog['mcstas'] else 'k'
    out = [f'DEFINE COMPONENT {t["name"]} SETTING PARAMETERS (int seed=0, string acts=".")']
    if t['noacc']:
        out.append('NOACC')
    for s in ('initialize', 'trace', 'save', 'finally', 'display'):
        if s == 'trace' and t['kind'] == 'act':
            out.insert(2 if t['noacc'] else 1, f'USERVARS %{{ int c_{t["name"]}; %}}')
            out.append(f'''TRACE
%{{
  char own[64];
  sprintf(own, "c_{t["name"]}_%ld", _comp->_index);
  int *count = (int *) particle_getvar_void(_particle, own, NULL);
  {log('T', v, t)}
  (*count)++;
  printf("R %lld %lu\\n", _particle->_uid, *_particle->randstate);
  *_particle->randstate = *_particle->randstate * {STEP[0]}UL + {STEP[1]}UL;
  {{
    long h = _particle->_uid + _particle->n1 * 3 + _particle->n2 + seed;
    char a = acts[h % strlen(acts)];
    if (strchr("mbraAnN", a)) {{ x += 1; y -= 0.5; z += 0.25; {v}x += 0.125; {v}z *= 2; t += 1; p *= 0.5; {'sx += 1' if prog['mcstas'] else 'Ex += 1'}; }}
    if (a == 'n') p = NAN;
    if (a == 'N') y = INFINITY;
    if (strchr("sbRAN", a)) SCATTER;
    if (strchr("rR", a)) RESTORE = 1;
    if (strchr("aA", a)) ABSORB;
  }}
%}}''')
        elif s == 'trace' and t['kind'] == 'idle':
            out.append('TRACE %{ %}')
        elif s in t['sections']:
            out.append(f'{"MCDISPLAY" if s == "display" else s.upper()} %{{ printf("{s} %s\\n", NAME_CURRENT_COMP); %}}')
    return '\n'.join(out) + '\nEND\n'


def log(kind, v, t=None):
    c, n1, n2 = ('*count', '_particle->n1', '_particle->n2') if t else ('0', 'n1', 'n2')
    return (f'printf("{kind} %lld %s %.15g %.15g %.15g %.15g %.15g %.15g %.15g %.15g %d %d %d %d\\n", _particle->_uid, NAME_CURRENT_COMP, x, y, z, '
            f'{v}x, {v}y, {v}z, t, p, (int) SCATTERED, {n1}, {n2}, {c});')


def text(prog):
    v = 'v' if prog['mcstas'] else 'k'
    out = ['DEFINE INSTRUMENT flow(int A = 1, int B = 2, D = 0.5)', 'USERVARS %{ int n1; double u1; int u2, u3; int n2; %}']
    if 'initialize' in prog['code']:
        out.append('INITIALIZE %{ printf("initialize %d %d %.15g\\n", A, B, D); %}')
    out.append('TRACE')
    ref = lambda i, r, previous: 'ABSOLUTE' if r is None else f'RELATIVE PREVIOUS' if previous and r == i - 1 else f'RELATIVE {name(prog, r)}'
    for i, c in enumerate(prog['comps']):
        w = []
        if c['cpu']:
            w.append('CPU')
        if c['split'] is not None:
            w.append(f'SPLIT {c["split"]}')
        if c['copy'] is not None:
            w.append(f'COMPONENT {name(prog, i)} = COPY({name(prog, c["copy"])})')
            c = dict(c, when=None, extend=None, jumps=[])
        else:
            w.append(f'COMPONENT {name(prog, i)} = {prog["types"][c["type"]]["name"]}(seed={c["seed"]}, acts="{c["acts"]}")')
        if c['when']:
            w.append(f'WHEN ({c["when"]})')
        w.append(f'AT ({", ".join(c["at"])}) {ref(i, c["at_ref"], c["previous"])}')
        if c['rot']:
            w.append(f'ROTATED ({", ".join(c["rot"])}) {ref(i, c["rot_ref"], c["previous"])}')
        if c['group']:
            w.append(f'GROUP {c["group"]}')
        if c['extend']:
            b = [log('X', v)]
            for op, m, r in c['extend']:
                b.append(dict(n1=f'n1 += {m};', n2=f'n2 += {m};', move='x -= 1; p *= 0.5;', uid='n1 += _particle->_uid;',
                              scatter=f'if ((n1 + n2) % {m} == {r}) SCATTER;', absorb=f'if ((n1 + n2) % {m} == {r}) ABSORB;')[op])
            w.append('EXTEND %{\n' + '\n'.join(b) + '\n%}')
        for j in c['jumps']:
            d = j['target'] - i
            t = name(prog, j['target'])
            if j['how'] == 'relative':
                t = 'MYSELF' if d == 0 else ('NEXT' if d > 0 else 'PREVIOUS') + (f' ({abs(d)})' if abs(d) > 1 else '')
            w.append(f'JUMP {t} {"ITERATE" if j["iterate"] else "WHEN"} ({j["cond"]})' if not j['iterate'] else f'JUMP {t} ITERATE {j["cond"]}')
        out.append('\n'.join(w))
    for s in ('save', 'finally'):
        if s in prog['code']:
            out.append(f'{s.upper()} %{{ printf("{s} %d %d %.15g\\n", A, B, D); %}}')
    return '\n'.join(out) + '\nEND\n'


class TooLong(Exception):
    pass


class State:
    def __init__(self, uid):
        self.uid, self.n1, self.n2, self.c = uid, 0, 0, {}
        self.pos, self.vel = np.zeros(3), np.array([0, 0, 1.0])
        self.t, self.p = 0.0, 1.0
        self.save, self.loops = None, {}

    def copy(self):
        s = State(self.uid)
        s.__dict__.update(self.__dict__)
        s.pos, s.vel, s.c, s.loops = self.pos.copy(), self.vel.copy(), dict(self.c), dict(self.loops)
        return s

    def phys(self):
        return self.pos.copy(), self.vel.copy(), self.t, self.p

    def restore(self, q):
        self.pos, self.vel, self.t, self.p = q[0].copy(), q[1].copy(), q[2], q[3]


class Model:
    def __init__(self, prog, limit=400, nosplit=False):
        self.nosplit = nosplit
        self.prog, self.comps, self.limit, self.log = prog, prog['comps'], limit, []
        self.places = []
        self.features = set()
        env = dict(prog['values'])
        num = lambda s: float(cexpr.evaluate(cexpr.parse(s), env, {}))
        for i, c in enumerate(self.comps):
            at = None if c['at_ref'] is None else self.places[c['at_ref']]
            if c['rot'] is None:
                angles, rot = [0, 0, 0], at
            else:
                angles, rot = [num(a) for a in c['rot']], None if c['rot_ref'] is None else self.places[c['rot_ref']]
            self.places.append(geom.place([num(a) for a in c['at']], at, angles, rot))

    def value(self, s, text):
        env = dict(self.prog['values'], n1=s.n1, n2=s.n2, p=s.p)
        return cexpr.evaluate(cexpr.parse(text), env, {})

    def move(self, pos, vel, i, j):
        p0, r0 = (np.zeros(3), np.eye(3)) if i is None else self.places[i]
        p1, r1 = self.places[j]
        return r1 @ (p0 + r0.T @ pos - p1), r1 @ (r0.T @ vel)

    def into(self, s, i, j):
        s.pos, s.vel = self.move(s.pos, s.vel, i, j)

    def line(self, kind, s, i, scattered, c=0):
        self.log.append((kind, s.uid, name(self.prog, i), [*s.pos, *s.vel, s.t, s.p], [scattered, s.n1, s.n2, c]))

    def run(self):
        for uid in uids(self.prog):
            s = State(uid)
            self.steps = 0
            if not self.comps:
                continue
            self.into(s, None, 0)
            self.visit(s, 0)
        return self.log

    def visit(self, s, i, split_done=False):
        n = len(self.comps)
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise TooLong()
            c = self.comps[i]
            if c['split'] is not None and not split_done and not self.prog['funnel'] and not self.nosplit:
                count = int(self.value(s, c['split'] or '10'))
                self.features.add('split')
                for _ in range(count):
                    k = s.copy()
                    k.p /= count
                    self.visit(k, i, True)
                return
            split_done = False
            nxt = self.component(s, i)
            if nxt is None or nxt[0] >= n:
                return
            j, transformed = nxt
            if transformed:
                self.into(s, i, j)
            i = j

    def component(self, s, i):
        """What happens in component *i*: None for an absorbed particle, else (index of the next, with coordinate change?)"""
        c, f = self.comps[i], self.features
        members = [k for k, o in enumerate(self.comps) if c['group'] is not None and o['group'] == c['group']]
        if not members or i == members[0]:
            s.save = s.phys()
        else:
            pos, vel = self.move(s.save[0], s.save[1], i - 1, i)
            s.save = (pos, vel, s.save[2], s.save[3])
        kind = self.prog['types'][c['type']]['kind']
        scattered, absorbed, restored = 0, False, False
        if (kind != 'arm' or c['extend']) and (not c['when'] or self.value(s, c['when'])):
            if kind == 'act':
                self.line('T', s, i, 0, s.c.get(i, 0))
                s.c[i] = s.c.get(i, 0) + 1
                h = s.uid + s.n1 * 3 + s.n2 + c['seed']
                a = c['acts'][h % len(c['acts'])]
                f.add('act-' + a)
                if a in 'mbraAnN':
                    s.pos = s.pos + np.array([1, -0.5, 0.25])
                    s.vel = np.array([s.vel[0] + 0.125, s.vel[1], s.vel[2] * 2])
                    s.t += 1
                    s.p *= 0.5
                scattered += a in 'sbRAN'
                restored = a in 'rR'
                absorbed = a in 'aAnN'
            if c['extend'] and not absorbed:
                f.add('extend')
                self.line('X', s, i, scattered)
                for op, m, r in c['extend']:
                    if op == 'n1':
                        s.n1 += m
                    elif op == 'n2':
                        s.n2 += m
                    elif op == 'uid':
                        s.n1 += s.uid
                    elif op == 'move':
                        s.pos = s.pos - np.array([1, 0, 0])
                        s.p *= 0.5
                    elif (s.n1 + s.n2) % m == r:
                        if op == 'scatter':
                            scattered += 1
                        else:
                            absorbed = True
                            f.add('extend-absorb')
                            break
            if restored:
                s.restore(s.save)
                absorbed = False
        elif c['when']:
            f.add('when-false')
        nxt = (i + 1, True)
        for k, j in enumerate([] if self.prog['funnel'] else c['jumps']):
            if j['iterate']:
                s.loops[i, k] = s.loops.get((i, k), 0) + 1
                if s.loops[i, k] < self.value(s, j['cond']):
                    nxt = (j['target'], False)
                    f.add('iterate')
                else:
                    s.loops[i, k] = 0
            elif self.value(s, j['cond']):
                nxt = (j['target'], False)
                f.add('jump-back' if j['target'] <= i else 'jump-on')
        if members:
            if scattered:
                nxt = (members[-1] + 1, True)
                f.add('group-hit-last' if i == members[-1] else 'group-hit')
            elif i == members[-1]:
                absorbed = True
                f.add('group-miss')
            else:
                f.add('group-next-absorbed' if absorbed else 'group-next')
                s.restore(s.save)
                absorbed = False
        return None if absorbed else nxt
