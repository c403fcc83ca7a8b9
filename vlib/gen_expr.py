"""Hypothesis strategies for the expression trees of vlib.cexpr."""
from hypothesis import strategies as st

IDS = ['a', 'b', 'c', 'ab', 'x1', 'E_i', '_q', 'max']
FUNCS = ['f', 'sin', 'g2', 'a_f']
MEMBERS = ['m', 'a', 'len', 'b']

INTS = ['0', '1', '2', '3', '7', '10', '255', '1000', '123456789012']
INT_FORMS = ['017', '010', '0x1F', '0xff', '0Xa', '2u', '3L', '10UL', '5ll', '00']
FLOATS = ['0.5', '1.5', '2.0', '.25', '3.', '1e3', '1E-3', '0.1', '6.02e+2', '1.0', '0.0', '1e22', '123456.789']
FLOAT_FORMS = ['0.5f', '2.0F', '1.25L', '1e2f', '4.l']


def num():
    return st.one_of(st.sampled_from(INTS), st.sampled_from(INTS[:5]), st.sampled_from(FLOATS),
                     st.sampled_from(INT_FORMS + FLOAT_FORMS),
                     st.integers(0, 10 ** 6).map(str),
                     st.integers(1, 4095).map(hex), st.integers(1, 511).map(lambda i: '0' + oct(i)[2:]),
                     st.floats(0, 1e6, allow_nan=False).map(repr)).map(lambda s: ['num', s])


STR_CHARS = list('abz AZ09_%/.,;:+-*(){}[]\'?!@#$&|<>=~^`') + ['\\n', '\\t', '\\"', '\\\\', '\\?', 'é', '\\\'']


def strings():
    frag = st.lists(st.sampled_from(STR_CHARS), max_size=6).map(''.join)
    last = st.one_of(frag, frag.map(lambda s: s + '\\x41'), frag.map(lambda s: s + '\\101'))
    return st.tuples(st.lists(frag, max_size=2), last).map(lambda p: ['str', p[0] + [p[1]]])


ARITH = ['+', '-', '*', '/']


def num_simple(draw):
    return ['num', draw(st.sampled_from(['0', '1', '2', '0.5', '3', '10', '1.5']))]


@st.composite
def tree(draw, depth=4, ids=IDS, ops='full', text=True):
    """ops: 'arith' (+ - * / unary minus parentheses), 'full'"""
    if ops == 'lin' and (depth <= 0 or draw(st.integers(0, 9)) == 0):
        return ['id', draw(st.sampled_from(ids))] if draw(st.integers(0, 2)) else num_simple(draw)
    if ops != 'lin' and (depth <= 0 or draw(st.integers(0, 9)) == 0):
        return draw(st.one_of(st.sampled_from(ids).map(lambda s: ['id', s]), num())) if draw(st.integers(0, 2)) else \
            ['id', draw(st.sampled_from(ids))]
    sub = lambda d=1: draw(tree(depth - d, ids, ops, text))
    if ops == 'lin':      # lengths and angles: no division by an expression, no powers
        k = draw(st.integers(0, 4))
        if k == 0:
            return ['un', '-', sub()]
        if k == 1:
            return ['bin', '*', sub(), num_simple(draw)]
        if k == 2:
            return ['bin', '/', sub(), ['num', draw(st.sampled_from(['2', '4.0', '0.5', '3']))]]
        return ['bin', draw(st.sampled_from(['+', '-'])), sub(), sub()]
    kinds = ['arith'] * 5 + ['neg'] * 2 + ['paren', 'pow']
    if ops == 'full':
        kinds += ['call'] * 2 + ['cmp'] * 2 + ['logic', 'tern', 'not', 'mod', 'shift', 'index', 'member', 'pos']
    k = draw(st.sampled_from(kinds))
    if k == 'arith':
        return ['bin', draw(st.sampled_from(ARITH)), sub(), sub()]
    if k == 'neg':
        return ['un', '-', sub()]
    if k == 'pos':
        return ['un', '+', sub()]
    if k == 'not':
        return ['un', '!', sub()]
    if k == 'paren':
        return ['paren', sub()]
    if k == 'pow':
        return ['bin', '^', sub(), sub(2)]
    if k == 'mod':
        return ['bin', '%', sub(), sub()]
    if k == 'shift':
        return ['bin', draw(st.sampled_from(['<<', '>>'])), sub(), sub(2)]
    if k == 'cmp':
        return ['bin', draw(st.sampled_from(['<', '>', '<=', '>=', '==', '!='])), sub(), sub()]
    if k == 'logic':
        return ['bin', draw(st.sampled_from(['&&', '||'])), sub(), sub()]
    if k == 'tern':
        return ['tern', sub(), sub(), sub()]
    if k == 'call':
        n = draw(st.integers(0, 3))
        args = [draw(strings()) if text and draw(st.integers(0, 5)) == 0 else sub() for _ in range(n)]
        return ['chain', [draw(st.sampled_from(FUNCS)), ['('] + args]]
    if k == 'index':
        return ['chain', [draw(st.sampled_from(ids)), ['[', sub()]]]
    links = [draw(st.sampled_from(ids))]
    for _ in range(draw(st.integers(1, 2))):
        links.append([draw(st.sampled_from(['.', '->'])), draw(st.sampled_from(MEMBERS))])
    tail = draw(st.integers(0, 5))
    if tail == 0:
        links.append(['[', sub()])
    elif tail == 1:
        links.append(['(', sub()])
    return ['chain', links]


def environments(ids=IDS, n=4):
    val = st.one_of(st.integers(-5, 9), st.sampled_from([0, 1, -1, 0.5, -2.5, 3, 1.25e3]),
                    st.floats(-50, 50, allow_nan=False).map(lambda x: round(x, 3)))
    return st.lists(st.lists(val, min_size=len(ids), max_size=len(ids)), min_size=1, max_size=n)


# The fixed assignments every expression is evaluated at (generic values: no accidental zeros or equalities)
def fixed_envs(ids):
    base = [[1.7, -2.3, 0.61, 3.9, -0.77, 5.3, 2.9, -4.1, 1.13, 0.37, -1.9, 2.2],
            [3, 2, 5, 1, 4, 6, 7, 8, 9, 10, 11, 12],
            [0, 1, -1, 2, 0, -3, 1, 0, 0, 1, 2, 3],
            [-0.4, 0.9, 2.6, -1.2, 1.8, 0.15, -3.3, 0.7, 2.1, -0.3, 1.1, 4.2]]
    return [dict(zip(ids, b)) for b in base]
