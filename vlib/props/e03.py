"""E03: which names an expression depends on, parameter prefixes, copies and hashes."""
import re

from hypothesis import strategies as st

from vlib import cexpr, engine, gen_expr
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = ('non-trivial: (depends, prefix) the expression has two identifiers or more, or a name which occurs only in a string, as a function, '
        'as a member, or inside a longer name; (aliasing) a copy was made and then one of the copies was changed; (hash) two trees compared equal')
# names which are substrings of one another, function names, member names, text of strings
POOL = ['a', 'b', 'ab', 'aba', 'x', 'x1', 'x11', 'E', 'E_i', '_q', 'len', 'f', 'sin', 'm', 'c']
IDS = ['a', 'b', 'ab', 'aba', 'x', 'x1', 'x11', 'E', 'E_i', '_q', 'len', 'm']


def rich(depth=3):
    words = st.sampled_from(['a', 'b c', 'ab', 'x1', 'E_i/x', 'f(a)', '%s a'])
    strings = words.map(lambda s: ['str', [s]])
    call = st.tuples(st.sampled_from(['f', 'sin', 'a', 'x1']), st.lists(st.one_of(gen_expr.tree(2, ids=IDS, text=False), strings), max_size=3)) \
        .map(lambda p: ['chain', [p[0], ['('] + p[1]]])
    base = gen_expr.tree(depth, ids=IDS, text=False)
    return st.one_of(base, call, st.tuples(st.sampled_from(['+', '*', '<', '-']), base, call).map(lambda p: ['bin', p[0], p[1], p[2]]))


def text_of(t):
    return cexpr.render(cexpr.avoid_quirks(t))


def parse(t):
    from mccode_antlr.common import Expr
    return Expr.parse(t)


def zero_division(t):
    from vlib.props.e01 import const_zero_divisor
    return const_zero_divisor(t)


@sub('depends', rich(), quick=1600, thorough=50000, rule='depends_on for every name of an adversarial pool')
def depends(t, rec):
    if zero_division(t):
        return
    text = text_of(t)
    e = parse(text)
    printed = cexpr.names(cexpr.parse(str(e)))
    source = cexpr.names(t)
    for n in POOL + ['a b', 'A', '1', 'ZZ']:
        got = bool(e.depends_on(n))
        check(got == (n in printed), f'{e} (from {text!r}) depends_on({n!r}) is {got}')
        if n in printed or not re.search(rf'(?<!\w){n}(?!\w)', text):   # texts and names of functions are in an expression too
            check((n in e) == (n in printed), f'{n!r} in {e} (from {text!r}) is {n in e}')
        # terms that vanish (0*x) may drop names, nothing may add one
        check(not got or n in source, f'{text!r} depends_on({n!r}) although it is not an identifier in it')
    if not any(v in (0, 1) for v in numbers(t)):   # 0*a, 1^a and the like may be reduced
        check(printed == source, f'{text!r} was parsed to {e} with the identifiers {sorted(printed)} instead of {sorted(source)}')
    hidden = {w for w in re.findall(r'[A-Za-z_]\w*', text)} - source
    rec.nontrivial(len(source) >= 2 or bool(hidden & set(IDS)), key=text)


def numbers(t):
    if isinstance(t, list) and len(t) == 2 and t[0] == 'num':
        return [cexpr.number(t[1])]
    return [v for x in t if isinstance(x, list) for v in numbers(x)]


def rename(t, names, prefix):
    k = t[0]
    if k == 'id':
        return ['id', prefix + t[1]] if t[1] in names else t
    if k in ('num', 'str'):
        return t
    if k == 'chain':
        base = t[1][0]
        if t[1][1][0] != '(' and base in names:
            base = prefix + base
        return [k, [base] + [l if l[0] in ('.', '->') else [l[0]] + [rename(x, names, prefix) for x in l[1:]] for l in t[1][1:]]]
    return t[:1] + [rename(x, names, prefix) if isinstance(x, list) else x for x in t[1:]]


@sub('prefix', st.tuples(rich(), st.lists(st.sampled_from(POOL), min_size=1, max_size=8, unique=True), st.booleans()).map(list),
     quick=1600, thorough=50000, rule='verify_parameters and the prefixed formats')
def prefix(case, rec):
    t, pars, copied = case
    if zero_division(t):
        return
    text = text_of(t)
    e = parse(text)
    plain = str(e)
    eq(f'{e:p}', plain, f'{text!r} formatted before any parameter is known')
    o = e
    if copied:
        o, e = e, e.copy()
    e.verify_parameters(list(pars))
    eq(str(e), plain, f'{text!r} printed after verify_parameters({pars})')
    got = f'{e:prefix:ZZ_}'
    want = rename(cexpr.parse(plain), set(pars), 'ZZ_')
    check(cexpr.parse(got) == want, f'{text!r} with the parameters {pars} is formatted {got!r}')
    eq(f'{e:p}', got.replace('ZZ_', '_instrument_var._parameters.'), f'{text!r} with the parameters {pars} formatted with p')
    for n in POOL:
        eq(bool(e.depends_on(n)), n in cexpr.names(cexpr.parse(plain)), f'{text!r} depends_on({n!r}) once {pars} are parameters')
    if copied:
        eq(f'{o:p}', plain, f'the original of a copy, {text!r}, after verify_parameters on the copy')
        check(o == e and hash(o) == hash(e), 'a copy with marked parameters equals its original')
        c = e.copy()
        eq(f'{c:p}', f'{e:p}', 'copy of an expression with parameters')
    rec.nontrivial(len(cexpr.names(t)) >= 2 and bool(pars), key=[text, sorted(pars), copied])


STEPS = st.lists(st.one_of(
    st.tuples(st.just('copy'), st.integers(0, 5)),
    st.tuples(st.just('mark'), st.integers(0, 5), st.lists(st.sampled_from(IDS), min_size=1, max_size=4)),
    st.tuples(st.just('type'), st.integers(0, 5), st.sampled_from(['float', 'int', 'set'])),
    st.tuples(st.just('read'), st.integers(0, 5)),
).map(list), min_size=2, max_size=9)


def state(e):
    return [str(e), f'{e:p}', repr(e), [x.data_type.name for x in e.expr]]


@sub('aliasing', st.tuples(rich(2), STEPS).map(list), quick=1200, thorough=40000,
     rule='histories of copying, marking parameters, changing types and reading, over a pool of copies')
def aliasing(case, rec):
    from mccode_antlr.common import Expr, DataType
    t, steps = case
    if zero_division(t):
        return
    pool = [parse(text_of(t))]
    snap = [state(pool[0])]
    changed = copied = False
    for s in steps:
        i = s[1] % len(pool)
        e = pool[i]
        if s[0] == 'copy':
            c = e.copy()
            check(c is not e and c == e and e == c and hash(c) == hash(e), f'the copy of {e} does not equal it')
            eq(state(c), state(e), f'the copy of {e}')
            pool.append(c)
            snap.append(state(c))
            copied = True
        elif s[0] == 'mark':
            e.verify_parameters(list(s[2]))
            snap[i] = state(e)
            changed = changed or copied
        elif s[0] == 'type':
            if s[2] == 'set':
                e.data_type = DataType.int
            else:
                getattr(Expr, s[2])(e)
                eq(e.data_type.name, s[2], f'the type of {e} made {s[2]}')
            snap[i] = state(e)
            changed = changed or copied
        else:
            e.depends_on('a'), e + 1, hash(e), e == pool[0]
            for read in (e.simplify, lambda: e.evaluate({'a': Expr.float(2.0)})):
                try:
                    read()
                except RuntimeError as error:   # as for 1/(0*a), 1/(a-2)
                    check('Division by zero' in str(error), f'{text_of(t)!r} with a=2: {error!r}')
        for j, (x, w) in enumerate(zip(pool, snap)):
            eq(state(x), w, f'expression {j} of the pool after {s} on number {i}')
    rec.nontrivial(changed, key=[text_of(t), steps])


def commute(t, bits, which=('+', '*')):
    """Swap operands of + and *, or of the operators given"""
    if t[0] in ('num', 'id', 'str'):
        return t
    if t[0] == 'chain':
        return [t[0], [t[1][0]] + [l if l[0] in ('.', '->') else [l[0]] + [commute(x, bits, which) for x in l[1:]] for l in t[1][1:]]]
    out = [commute(x, bits, which) if isinstance(x, list) else x for x in t[1:]]
    if t[0] == 'bin' and t[1] in which and bits and bits.pop():
        out[1], out[2] = out[2], out[1]
    return [t[0]] + out


@sub('hash', st.tuples(st.one_of(rich(3), gen_expr.tree(3, ids=IDS, ops='arith')), rich(2), st.lists(st.booleans(), min_size=5, max_size=8)).map(list), quick=1200, thorough=40000,
     rule='pairs of equal, commuted or different expressions')
def hashes(case, rec):
    t, u, bits = case
    if zero_division(t) or zero_division(u):
        return
    t2 = commute(t, list(bits))
    a, b, c, d = parse(text_of(t)), parse(text_of(t)), parse(text_of(t2)), parse(text_of(u))
    other = commute(t, list(bits), ('+', '*', '==', '!=', '&&', '||', '<', '<=', '-'))
    o = parse(text_of(other)) if not zero_division(other) else d
    check(a == b, f'two parses of {text_of(t)!r} differ')
    n = 0
    for x, y in ((a, b), (a, c), (a, d), (c, d), (a, o)):
        check((x == y) == (y == x), f'equality of {x} and {y} is not symmetric')
        if x == y:
            check(hash(x) == hash(y), f'{x} equals {y} but their hashes differ')
            n += x is a and y is c
            check(len({x, y}) == 1, 'a set of equal expressions')
    if not (a == d):
        pass
    rec.nontrivial(n and t2 != t, key=[text_of(t), text_of(t2)])
