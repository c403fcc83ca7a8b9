"""E02: arithmetic on expressions, simplification and substitution preserve the value."""
import re

from hypothesis import strategies as st

from vlib import cexpr, engine, gen_expr
from vlib.engine import check, eq, Violation
from vlib.props.e01 import compare, meaning, operators, const_zero_divisor

SUBS, sub = engine.registry()
RULE = ('non-trivial: at least two operators (for the interplay of the zero/one/sign shortcuts), and the result compared with ordinary '
        'arithmetic at one assignment or more')
ASSUMPTIONS = ['/ is real division; an expression whose value is undefined (division by zero, overflow) has no required result',
               'known values are numbers, given as Expr or Value objects, or another identifier']
IDS = ['a', 'b', 'c', 'd']

# numbers which exercise the shortcuts
SPECIAL = ['0', '1', '2', '3', '0.0', '1.0', '0.5', '2.5', '10']
SIGNED = [0, 1, -1, 2, -2, 3, -3, 0.0, 1.0, -1.0, 0.5, -0.5, 2.5, -7.25, 10, 1e3]


@st.composite
def program(draw, depth):
    """A tree of Python-level operations: leaves ['raw', x] (a plain number), ['int'|'float'|'best', x] or ['id', name]"""
    if depth <= 0 or draw(st.integers(0, 7)) == 0:
        k = draw(st.integers(0, 5))
        if k <= 2:
            return ['id', draw(st.sampled_from(IDS))]
        x = draw(st.sampled_from(SIGNED))
        if k == 3:
            return ['raw', x]
        return [draw(st.sampled_from(['best', 'number'])), x]
    k = draw(st.sampled_from(['+', '-', '*', '/'] * 3 + ['neg'] * 3 + ['pos', '^', 'abs', 'group']))
    s = lambda: draw(program(depth - 1))
    if k in ('neg', 'pos', 'abs', 'group'):
        return [k, s()]
    return [k, s(), s()]


def to_tree(p):
    k = p[0]
    if k == 'id':
        return ['id', p[1]]
    if k in ('raw', 'best', 'number'):
        return ['num', repr(p[1])] if p[1] >= 0 else ['un', '-', ['num', repr(-p[1])]]
    if k == 'neg':
        return ['un', '-', to_tree(p[1])]
    if k in ('pos', 'group'):
        return ['paren', to_tree(p[1])]
    if k == 'abs':
        return ['chain', ['abs', ['(', to_tree(p[1])]]]
    return ['bin', k, to_tree(p[1]), to_tree(p[2])]


def build(p, log):
    """Interpret the program with the operators of the library; *log* collects (expression, its text)"""
    from mccode_antlr.common import Expr, UnaryOp
    k = p[0]
    if k == 'id':
        r = Expr.id(p[1])
    elif k == 'raw':
        return p[1]
    elif k == 'best':
        r = Expr.best(p[1])
    elif k == 'number':
        r = (Expr.int if isinstance(p[1], int) else Expr.float)(p[1])
    else:
        args = [build(x, log) for x in p[1:]]
        if all(isinstance(x, (int, float)) for x in args):
            args[0] = Expr.best(args[0])
        if k == 'neg':
            r = -args[0]
        elif k == 'pos':
            r = +args[0]
        elif k == 'group':
            r = Expr(UnaryOp('__group__', args[0].expr))
        elif k == 'abs':
            r = abs(args[0])
        elif k == '+':
            r = args[0] + args[1]
        elif k == '-':
            r = args[0] - args[1]
        elif k == '*':
            r = args[0] * args[1]
        elif k == '/':
            r = args[0] / args[1]
        else:
            r = args[0] ** args[1]
    check(isinstance(r, Expr), f'{p} is a {type(r).__name__}, not an Expr')
    log.append((r, str(r)))
    return r


ACCEPTED = (RuntimeError, ZeroDivisionError, OverflowError, ValueError)
FUN = {'abs': abs}


def values(t, envs):
    out = []
    for env in envs:
        try:
            out.append(cexpr.evaluate(t, env, FUN))
        except cexpr.Undefined:
            out.append(None)
    return out


def compare_text(want, text, envs, what):
    try:
        got_tree = cexpr.parse(text)
    except cexpr.BadSyntax as e:
        raise Violation(f'{what} is not a C expression: {e}')
    n = 0
    for env, w in zip(envs, want):
        if w is None:
            continue
        try:
            g = cexpr.evaluate(got_tree, env, FUN)
        except (cexpr.Undefined, KeyError) as e:
            raise Violation(f'{what} {text!r} has no value ({e}) where ordinary arithmetic gives {w!r} at {env}')
        check(cexpr.same(g, w, 1e-9, 1e-9 * max(1, abs(w) if not isinstance(w, str) else 1)),
              f'{what} {text!r} is {g!r}, ordinary arithmetic gives {w!r} at {env}')
        n += 1
    return n


def pure_arithmetic(t):
    k = t[0]
    if k in ('num', 'id'):
        return True
    if k == 'paren':
        return pure_arithmetic(t[1])
    if k == 'un':
        return t[1] in '+-' and pure_arithmetic(t[2])
    return k == 'bin' and t[1] in '+-*/' and pure_arithmetic(t[2]) and pure_arithmetic(t[3])


def zero_divisor_anywhere(t, env):
    """Whether some division inside has a zero divisor at env (even if the term is multiplied by zero)"""
    def walk(x):
        if not isinstance(x, list):
            return
        for y in x[1:] if x and isinstance(x[0], str) else x:
            walk(y)
        if x and x[0] == 'bin' and x[1] in ('/', '%', '^'):
            cexpr.evaluate(x, env, FUN)
    try:
        walk(t)
        cexpr.evaluate(t, env, FUN)
    except cexpr.Undefined:
        return True
    return False


def known_values(spec, used):
    """spec: list of [id index, kind, value]; returns the dictionary for evaluate and name -> number or name"""
    from mccode_antlr.common import Expr, Value
    known, plain = {}, {}
    for i, kind, x in spec:
        name = IDS[i]
        if kind == 'id':
            other = IDS[(i + 1) % len(IDS)]
            known[name], plain[name] = Expr.id(other), other
        else:
            plain[name] = x
            known[name] = {'best': Expr.best, 'number': Expr.int if isinstance(x, int) else Expr.float,
                           'value': Value.best}[kind](x)
    return known, plain


def substitutions(ids=True):
    kinds = ['best', 'number', 'value'] + (['id'] if ids else [])
    return st.lists(st.tuples(st.integers(0, 3), st.sampled_from(kinds), st.sampled_from(SIGNED)).map(list),
                    max_size=4, unique_by=lambda x: x[0])


def substituted_envs(envs, plain):
    out = []
    for env in envs:
        e2 = dict(env)
        for n, v in plain.items():
            e2[n] = env[v] if isinstance(v, str) else v
        out.append(e2)
    return out


def check_derived(e, t, spec, envs, rec, what):
    """simplify, partial and full evaluation of *e*, whose meaning is the tree *t*"""
    want = values(t, envs)
    before = str(e)
    divides_by_zero = lambda es: all(zero_divisor_anywhere(t, x) for x in es)
    try:
        s = e.simplify()
        compare_text(want, str(s), envs, f'{what} simplified')
        s2 = s.simplify()
        compare_text(want, str(s2), envs, f'{what} simplified twice')
    except ACCEPTED:
        if not divides_by_zero(envs):
            raise
    known, plain = known_values(spec, None)
    senvs = substituted_envs(envs, plain)
    swant = values(t, senvs)
    try:
        v = e.evaluate(known)
        compare_text(swant, str(v), envs, f'{what} with {plain}')
        if not any(isinstance(x, str) for x in plain.values()):
            for name in plain:
                check(not v.depends_on(name), f'{what} with {plain} still depends on {name}: {v}')
    except ACCEPTED:
        if not divides_by_zero(senvs):
            raise
        rec.label('undefined')
    # everything known
    from mccode_antlr.common import Expr
    marked = e.copy()
    marked.verify_parameters(IDS[:2])
    for env in envs[:3]:
        full = {n: Expr.best(x) for n, x in env.items()}
        if zero_divisor_anywhere(t, env):
            continue
        w = cexpr.evaluate(t, env, FUN)
        v = e.evaluate(full)
        compare_text([w], str(v), [env], f'{what} at {env}')
        m = marked.evaluate(full)
        compare_text([w], str(m), [env], f'{what}, of which {IDS[:2]} are instrument parameters, at {env}')
        eq(m.is_constant, v.is_constant, f'{what}, of which {IDS[:2]} are instrument parameters, at {env} is a number')
        if pure_arithmetic(t):
            check(v.is_constant, f'{what} evaluated at {env} is {v!r}, not a number')
            check(isinstance(v.value, (int, float)) and not isinstance(v.value, bool) and cexpr.same(v.value, w, 1e-9, 1e-9 * max(1, abs(w))),
                  f'{what} evaluated at {env} has the value {v.value!r}, expected {w!r}')
            rec.label('constant')
    check(str(e) == before, f'{what} was changed from {before} to {e} by simplify or evaluate')


@sub('combine', st.tuples(program(4), substitutions()).map(list), quick=6000, thorough=200000,
     rule='programs of Python operators over expressions and plain numbers on either side, then simplify and partial/full evaluate')
def combine(case, rec):
    p, spec = case
    t = to_tree(p)
    envs = gen_expr.fixed_envs(IDS)
    log = []
    try:
        e = build(p, log)
    except ACCEPTED:
        if all(zero_divisor_anywhere(t, env) for env in envs):
            rec.label('undefined')
            return
        raise
    if not log:
        return
    want = values(t, envs)
    n = compare_text(want, str(e), envs, 'the combination')
    for x, text in log:
        check(str(x) == text, f'an operand was changed from {text} to {x}')
    check_derived(e, t, spec, envs, rec, f'{e}')
    rec.nontrivial(n and operators(t) >= 2, key=cexpr.render(t))


@sub('parsed', st.tuples(st.one_of(gen_expr.tree(3, ids=IDS, ops='arith'), gen_expr.tree(3, ids=IDS, ops='full', text=False)),
                         substitutions(False)).map(list), quick=2400, thorough=60000,
     rule='parsed expressions (all operators), then simplify and partial/full evaluate')
def parsed(case, rec):
    from mccode_antlr.common import Expr
    t, spec = case
    t = cexpr.strict(cexpr.avoid_quirks(t))
    if const_zero_divisor(t):
        return
    based = bases(t)
    spec = [s for s in spec if IDS[s[0]] not in based]
    envs = gen_expr.fixed_envs(IDS)
    e = Expr.parse(cexpr.render(t))
    if based:
        want = values(t, envs)
        compare_text(want, str(e.simplify()), envs, f'{e} simplified')
        known, plain = known_values(spec, None)
        senvs = substituted_envs(envs, plain)
        try:
            compare_text(values(t, senvs), str(e.evaluate(known)), envs, f'{e} with {plain}')
        except ACCEPTED:
            if not all(zero_divisor_anywhere(t, x) for x in senvs):
                raise
    else:
        check_derived(e, t, spec, envs, rec, f'{e}')
    rec.nontrivial(operators(t) >= 2, key=cexpr.render(t))


def bases(t):
    """Names used as arrays or structures"""
    if t[0] in ('num', 'id', 'str'):
        return set()
    if t[0] == 'chain':
        out = set() if t[1][1][0] == '(' else {t[1][0]}
        for l in t[1][1:]:
            if l[0] not in ('.', '->'):
                for a in l[1:]:
                    out |= bases(a)
        return out
    return set().union(*[bases(x) for x in t[1:] if isinstance(x, list)])


@sub('ints', st.tuples(st.integers(0, 60), st.integers(1, 9)).map(list), quick=100, thorough=540,
     rule='floor division, round and int of known values')
def ints(case, rec):
    from mccode_antlr.common import Expr
    i, j = case
    e = Expr.int(i) // Expr.int(j)
    check(e.is_constant and e.value == i // j, f'{i} // {j} is {e!r}')
    e = Expr.int(i) // j
    check(e.is_constant and e.value == i // j, f'{i} // {j} is {e!r}')
    check(int(Expr.int(i)) == i, f'int of {i}')
    r = round(Expr.float(i / j), 1)
    check(r.is_constant and r.value == round(i / j, 1), f'round({i / j}, 1) is {r!r}')
    check(Expr.best(i / j).value == i / j, 'best')
    rec.nontrivial(j > 1)


class CInt(int):
    def __truediv__(self, other):
        q = abs(int(self)) // abs(int(other))
        return CInt(q if (self < 0) == (other < 0) else -q)

    def __add__(self, other):
        return CInt(int(self) + int(other))

    def __sub__(self, other):
        return CInt(int(self) - int(other))

    def __mul__(self, other):
        return CInt(int(self) * int(other))

    def __neg__(self):
        return CInt(-int(self))


@st.composite
def whole(draw, depth):
    """Operations on integers: leaves ['raw'|'int', n] or ['id', name]"""
    if depth <= 0 or draw(st.integers(0, 6)) == 0:
        k = draw(st.sampled_from(['id', 'int', 'raw', 'id']))
        return [k, draw(st.sampled_from(['a', 'b', 'c']) if k == 'id' else st.sampled_from([1, 2, 3, 0, 5, 7, 10, 12]))]
    return [draw(st.sampled_from(['//', '//', '+', '*'])), draw(whole(depth - 1)), draw(whole(depth - 1))]


def divided(p, env):
    """The integer, or None if a divisor is zero"""
    if p[0] == 'id':
        return env[p[1]]
    if p[0] in ('int', 'raw'):
        return p[1]
    x, y = divided(p[1], env), divided(p[2], env)
    if x is None or y is None or p[0] == '//' and y == 0:
        return None
    return x // y if p[0] == '//' else x + y if p[0] == '+' else x * y


def text_of(p):
    return str(p[1]) if len(p) == 2 else f'({text_of(p[1])} {p[0]} {text_of(p[2])})'


@sub('whole', st.tuples(st.one_of(whole(3), whole(3), st.tuples(st.just('//'), whole(2), st.sampled_from([['raw', -1], ['int', -1], ['int', 1], ['raw', 1]])).map(list)), st.lists(st.tuples(*[st.integers(1, 40)] * 3).map(list), min_size=1, max_size=4), st.booleans()).map(list), quick=2000, thorough=60000,
     rule='integer division, of integers and names of integers which are not negative: the C text, by the rules of C for integers')
def whole_(case, rec):
    from mccode_antlr.common import Expr
    p, envs, fold = case
    constant = 'id' not in str(p)
    if divided(p, dict(zip('abc', envs[0]))) is None:
        rec.label('undefined')
        return

    def make(p):
        if p[0] == 'id':
            return Expr.id(p[1])
        if len(p) == 2:
            return p[1] if p[0] == 'raw' else Expr.int(p[1])
        x, y = make(p[1]), make(p[2])
        return x // y if p[0] == '//' else x + y if p[0] == '+' else x * y
    try:
        e = make(p)
    except ZeroDivisionError:
        return
    except RuntimeError as err:
        check('zero' not in str(err), f'{text_of(p)} is refused: {err}')
        raise
    if isinstance(e, int):
        rec.label('plain')
        return
    texts = [str(e)] + ([str(e.simplify())] if fold else [])
    if constant:
        check(e.is_constant, f'{text_of(p)} is {e}, which is no number')
    n = 0
    for env in envs:
        env = dict(zip('abc', env))
        want = divided(p, env)
        if want is None:
            continue
        for t in texts:
            # by the rules of C: no operand but a last divisor is negative, so both kinds of rounding agree with want
            got = eval(re.sub(r'\b(\d+)\b', r'CInt(\1)', t), dict(CInt=CInt), {n: CInt(x) for n, x in env.items()})
            check(got == want and isinstance(got, CInt), f'{text_of(p)} is {want} at {env}, but the text {t!r} is {got}')
            n += 1
    divisions = text_of(p).count('//')
    rec.label('constant' if constant else 'names')
    rec.nontrivial(divisions >= 1 and n >= 1 and len(p) == 3 and text_of(p).count('(') >= 2, key=p)


@sub('floor', st.tuples(st.sampled_from([2.7, 7.0, -2.5, 0.3, 5, -5, 9.99, 1e6 + 0.5, -0.1, 2.5, 3.5]), st.sampled_from([1, -1, 2, -2, 3, 0.5, -0.25, 2.5, 1.0, -1.0]), st.integers(0, 2)).map(list),
     quick=150, thorough=330, rule='integer division of numbers is rounded down, also for divisors of one and minus one')
def floor(case, rec):
    from mccode_antlr.common import Expr
    x, y, how = case
    left = Expr.best(x) if how != 1 else x
    right = Expr.best(y) if how != 2 else y
    got = left // right
    check(got.is_constant and float(got.value) == x // y, f'{x} // {y} is {got}, not {x // y}')
    rec.nontrivial(x != int(x), key=case)


@sub('compare', st.tuples(*[st.tuples(st.sampled_from(['int', 'float', 'raw', 'best', 'id']), st.sampled_from([0, 1, 2, 3, -1, -2, 0.5, 2.5, -0.5, 1e3])).map(list)] * 2,
                          st.sampled_from(['<', '>', '<=', '>=', '==', '!='])).map(list), quick=400, thorough=3000,
     rule='a comparison of a number with a number has the answer of arithmetic; one with a name is the expression which compares them')
def compare_(case, rec):
    import operator
    from mccode_antlr.common import Expr, Value
    (k1, x), (k2, y), op = case
    f = {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}[op]
    if k1 == 'raw' and k2 in ('raw', 'id') or 'id' in (k1, k2) and op in ('==', '!='):
        return
    def make(k, x):
        if k == 'raw':
            return x
        if k == 'id':
            return Value('name')
        return dict(int=Value.int, float=Value.float, best=Value.best)[k](int(x) if k == 'int' else x)
    number = lambda k, x: int(x) if k == 'int' else x
    if 'id' in (k1, k2):
        if k1 == 'id' and k2 == 'id':
            return
        got = f(make(k1, x), make(k2, y))
        for v in (-3, -2, -1, -0.5, 0, 0.5, 1, 2, 2.5, 3, 999, 1e3, 1001):
            want = f(v if k1 == 'id' else number(k1, x), v if k2 == 'id' else number(k2, y))
            env = {'name': v}
            t = str(got)
            check(bool(eval(t, {}, env)) == want, f'name {op} {y} (or {x} {op} name) is {t!r}, which is wrong for {v}')
        rec.label('name')
    else:
        want = f(number(k1, x), number(k2, y))
        got = f(make(k1, x), make(k2, y))
        check(bool(got) == want, f'{k1} {x} {op} {k2} {y} is {got}')
        rec.label(op)
    rec.nontrivial(key=case)
