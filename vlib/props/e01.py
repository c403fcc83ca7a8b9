"""E01: expression text keeps its C meaning through parsing and printing."""
from hypothesis import strategies as st

from vlib import cexpr, engine, gen_expr
from vlib.engine import check, Violation

SUBS, sub = engine.registry()
RULE = ('non-trivial: the printed expression was compared with its source at one assignment or more, and the source has at least '
        'two operators (literal and string sub-checks: the literal is not a plain decimal integer / the string has a special character)')
ASSUMPTIONS = ['/ is real division and ^ is a power whose base binds tighter than a unary minus, as in the project',
               'operator combinations listed as known findings are parenthesised by the generator']


def meaning(tree, envs):
    out = []
    for env in envs:
        try:
            out.append(cexpr.evaluate(tree, env))
        except cexpr.Undefined:
            out.append(None)
    return out


def compare(want, text, envs, what):
    try:
        got_tree = cexpr.parse(text)
    except cexpr.BadSyntax as e:
        raise Violation(f'{what} is not a C expression: {e}')
    n = 0
    for env, w in zip(envs, want):
        if w is None:
            continue
        try:
            g = cexpr.evaluate(got_tree, env)
        except (cexpr.Undefined, KeyError) as e:
            raise Violation(f'{what} {text!r} has no value ({type(e).__name__} {e}) where the source is {w!r} at {env}')
        check(cexpr.same(g, w), f'{what} {text!r} is {g!r} but the source is {w!r} at {env}')
        n += 1
    return n


def operators(t):
    if t[0] in ('num', 'id', 'str'):
        return 0
    if t[0] == 'paren':
        return operators(t[1])
    if t[0] == 'chain':
        return 1 + sum(operators(a) for l in t[1][1:] if l[0] not in ('.', '->') for a in l[1:])
    return 1 + sum(operators(x) for x in t[1:] if isinstance(x, list))


def const_zero_divisor(t):
    """Division by an expression without identifiers whose value is zero: no meaning at all"""
    if t[0] == 'bin' and t[1] == '/' and not cexpr.names(t[3]):
        try:
            if not cexpr.evaluate(t[3], {}):
                return True
        except cexpr.Undefined:
            return True
    if t[0] == 'chain':
        return any(const_zero_divisor(a) for l in t[1][1:] if l[0] not in ('.', '->') for a in l[1:])
    return any(const_zero_divisor(x) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str) and t[0] != 'str')


def parse(text):
    from mccode_antlr.common import Expr
    return Expr.parse(text)


@sub('tree', st.tuples(gen_expr.tree(4), st.sampled_from(['', ' ']), gen_expr.environments(n=2)).map(list),
     quick=3200, thorough=120000, rule='random expression trees rendered with minimal or redundant parentheses')
def tree(case, rec):
    t, sp, extra = case
    t = cexpr.avoid_quirks(t)
    if const_zero_divisor(t):
        rec.label('skipped:zero-divisor')
        return
    text = cexpr.render(t, sp)
    envs = gen_expr.fixed_envs(gen_expr.IDS) + [dict(zip(gen_expr.IDS, v)) for v in extra]
    want = meaning(t, envs)
    e = parse(text)
    s1 = str(e)
    n = compare(want, s1, envs, f'{text!r} printed')
    e2 = parse(s1)
    compare(want, str(e2), envs, f'{text!r} printed, parsed and printed again')
    rec.label(f'defined:{min(n, 3)}')
    rec.nontrivial(n >= 1 and operators(t) >= 2, key=text)


@sub('literal', gen_expr.num(), quick=600, thorough=8000, rule='number literals in every C form')
def literal(case, rec):
    text = case[1]
    want = cexpr.number(text)
    for src, w in ((text, want), (f'-{text}', -want), (f'({text})', want), (f'f({text})', None), (f'a+{text}', None)):
        e = parse(src)
        if w is not None:
            got = cexpr.evaluate(cexpr.parse(str(e)), {})
            check(got == w, f'{src!r} printed {str(e)!r} is {got!r}, expected {w!r}')
            if e.is_constant:
                check(e.value == w, f'{src!r} has the value {e.value!r}, expected {w!r}')
        else:
            compare(meaning(cexpr.parse(src), [{'a': 0}]), str(e), [{'a': 0}], src)
    e = parse(text)
    check(e.is_constant and e.data_type.name == ('int' if isinstance(want, int) else 'float'),
          f'literal {text!r} has the type {e.data_type.name}')
    rec.nontrivial(not (text.isdigit() and (text == '0' or text[0] != '0')), key=text)


@sub('string', gen_expr.strings(), quick=500, thorough=8000, rule='string literals: escapes, adjacent strings')
def string(case, rec):
    text = cexpr.render(case)
    want = ''.join(cexpr.unescape(f) for f in case[1])
    for src in (text, f'f({text}, 1)', f'g2({text},{text})'):
        s = str(parse(src))
        got = cexpr.parse(s)
        nodes = [got] if got[0] == 'str' else [a for a in got[1][1][1:] if a[0] == 'str']
        check(len(nodes) == (2 if src.startswith('g2') else 1), f'{src!r} printed {s!r}')
        for nd in nodes:
            g = ''.join(cexpr.unescape(f) for f in nd[1])
            check(g == want, f'{src!r} printed {s!r} is the string {g!r}, expected {want!r}')
    e = parse(text)
    check(e.is_str and e.is_constant, f'{text!r} is not a constant string')
    rec.nontrivial(any(not ch.isalnum() for ch in want) or len(case[1]) > 1, key=text)


@sub('text', st.just(['a']), quick=0, thorough=0, rule='stored source texts')
def text(case, rec):
    t = cexpr.parse(case[0])
    envs = gen_expr.fixed_envs(gen_expr.IDS)
    n = compare(meaning(t, envs), str(parse(case[0])), envs, f'{case[0]!r} printed')
    rec.nontrivial(n > 0)
