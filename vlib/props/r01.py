"""R01: scan ranges enumerate exactly the points the user asked for."""
from fractions import Fraction
from itertools import product
from math import isclose

from hypothesis import strategies as st

from vlib import engine
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least three points, and a step which is not one'
ASSUMPTIONS = ['the points of a range are those of exact arithmetic with the decimal numbers of the text', 'numbers which differ by a relative rounding error of 1e-12 of the largest are the same point']

LIMIT = 5000


def decimal(n, places, form):
    """the text of n * 10^-places"""
    if form == 'e':
        return f'{n}e-{places}' if places else f'{n}e0'
    if places == 0:
        return f'{n}' if form == 'int' else f'{n}.'
    sign, digits = '-' if n < 0 else '', str(abs(n)).rjust(places + 1, '0')
    s = f'{digits[:-places]}.{digits[-places:]}'
    if form == 'short' and s.startswith('0.'):
        s = s[1:]
    return sign + s


@st.composite
def range_text(draw, numbers=None):
    """[text, points as strings of fractions], of the given number of points"""
    places = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 6]))
    form = draw(st.sampled_from(['int', 'int', 'float', 'e', 'short']))
    n = numbers if numbers is not None else draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, LIMIT)))
    one = draw(st.integers(0, 5)) == 0
    step = 10 ** places if one else draw(st.integers(1, 400)) * draw(st.sampled_from([1, -1]))
    start = draw(st.one_of(st.integers(-50, 50), st.integers(-10**6, 10**6)))
    extra = draw(st.sampled_from([0, 0, 1])) and draw(st.integers(0, abs(step) - 1))
    if not one and draw(st.integers(0, 7)) == 0:
        # the stop is missed by very little
        places, step, n, start = places + 6, step * 10**6, min(n, 12), start * 10**3
        extra = draw(st.sampled_from([1, abs(step) - 1, abs(step) - 7]))
    if n == 1 and not extra:
        extra = min(1, abs(step) - 1)
        n += not extra
        if numbers == 1 and n == 2:  # a single point needs room after it
            n, step, one, extra = 1, 3, False, 1
    stop = start + (n - 1) * step + (extra if step > 0 else -extra)
    texts = [decimal(x, places, form) for x in (start, stop)]
    if not one or draw(st.booleans()):
        texts.insert(1, decimal(step, places, form))
    scale = 10 ** places
    return [':'.join(texts), [str(Fraction(start + i * step, scale)) for i in range(n)]]


def close(a, b, size):
    return abs(Fraction(a) - b) <= size * Fraction(1, 10**12)


def compare(got, want, what):
    want = [Fraction(x) for x in want]
    eq(len(got), len(want), f'{what} number of points of {got[:5]}...{got[-3:]}')
    size = max(map(abs, want)) if want else 0
    for i, (a, b) in enumerate(zip(got, want)):
        check(close(a, b, size), f'{what} point {i} is {a!r}, not {float(b)!r}')
        if b.denominator == 1 and isinstance(a, int):
            eq(a, int(b), f'{what} point {i}')


@sub('range', range_text(), quick=1500, thorough=60000, rule='ranges written as start:stop or start:step:stop')
def range_(case, rec):
    from mccode_antlr.run.range import MRange
    text, want = case
    r = MRange.from_str(text)
    points = list(r)
    compare(points, want, f'{text}:')
    eq(len(r), len(points), f'{text}: length')
    eq([r[i] for i in range(len(points))], points, f'{text}: indexing')
    for i in (len(points), len(points) + 3):
        try:
            r[i]
        except IndexError:
            pass
        else:
            raise engine.Violation(f'{text}: index {i} of {len(points)} exists')
    eq(r.min, min(points), f'{text}: minimum')
    eq(r.max, max(points), f'{text}: maximum')
    eq(list(r), points, f'{text}: second iteration')
    it = [iter(r), iter(r)]
    eq([next(it[0]), next(it[1])], [points[0]] * 2, f'{text}: two iterators')
    again = MRange.from_str(str(r))
    eq(list(again), points, f'{text}: points of its text {r}')
    check(again == r, f'{text}: differs from its text {r}')
    rec.label('one' if len(want) == 1 else 'few' if len(want) < 13 else 'many')
    rec.nontrivial(len(want) > 2 and text.count(':') == 2, key=text)


@sub('refused', st.tuples(st.integers(-20, 20), st.integers(-20, 20), st.integers(-3, 3), st.sampled_from(['{0}:{1}:{2}', '{0}:{2}', '{0}.5:{1}:{2}', '{0}:{1}:{2}:{0}', 'a:{1}:{2}', '{0}:', ':{2}', '{0}::{2}'])).map(list), quick=400, thorough=10000,
     rule='ranges which may be empty or are not ranges: refused, never infinite or the wrong points')
def refused(case, rec):
    from mccode_antlr.run.range import MRange
    a, s, b, form = case
    text = form.format(a, s, b)
    parts = text.split(':')
    try:
        nums = [Fraction(x) for x in parts]
    except ValueError:
        nums = None
    want = None
    if nums and 2 <= len(nums) <= 3:
        lo, step, hi = nums if len(nums) == 3 else (nums[0], Fraction(1), nums[1])
        if step and lo != hi and (hi - lo) / step >= 0:
            want = [lo + i * step for i in range(int((hi - lo) // step) + 1)]
    try:
        r = MRange.from_str(text)
        points = [x for x, _ in zip(r, range(1000))]
        n = len(r)
    except (ValueError, ZeroDivisionError):
        check(want is None, f'{text} is refused')
    else:
        check(want is not None or not points, f'{text} has points {points[:5]}')
        if want is not None:
            compare(points, [str(x) for x in want], text)
        eq(n, len(points), f'{text}: length')
    rec.nontrivial(want is None, key=text)


NAMES = ['a', 'b', 'Ei', 'E_i', 'lambda', 'A', 'aa']
WORDS = ['abc', 'x.dat', '/tmp/y', 'a b', '', 'a=b', 'Ni', '"q"', '1.5.2', '--5', '-', 'x,y', 'NULL']
single = st.one_of(st.integers(-100, 100).map(lambda n: [str(n), n]), st.integers(-999, 999).map(lambda n: [str(n / 100), n / 100]), st.sampled_from(WORDS).map(lambda w: [w, w]), st.sampled_from([['1e3', 1000.0], ['-.5', -.5]]))


@st.composite
def command(draw, grid):
    """list of [name, text, kind, values], all not single ones of the same length unless there is a grid"""
    n = draw(st.integers(2, 7))
    out = []
    for name in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4)):
        if draw(st.booleans()):
            text, values = draw(single)
            out.append([name, text, 'single', [values]])
        else:
            text, values = draw(range_text(draw(st.integers(1, 5)) if grid else draw(st.sampled_from([n, n, n, 1]))))
            out.append([name, text, 'range', values])
    return out


def same(got, want):
    """one scan point"""
    if len(got) != len(want):
        return False
    for (kind, w, size), g in zip(want, got):
        if kind == 'single':
            if type(g) is not type(w) or g != w:
                return False
        elif not close(g, Fraction(w), size):
            return False
    return True


def expected(spec, grid):
    sizes = [max(abs(Fraction(x)) for x in v) if k == 'range' else 0 for _, _, k, v in spec]
    columns = [[(k, x, s) for x in v] for (_, _, k, v), s in zip(spec, sizes)]
    if grid:
        return list(product(*columns))
    n = max(map(len, columns))
    return list(zip(*[c * n if len(c) == 1 else c for c in columns]))


def verify(scan, spec, grid, what):
    n, names, points = scan
    points = list(points)
    want = expected(spec, grid)
    eq(list(names), [x[0] for x in spec], f'{what} names')
    eq(n, len(want), f'{what} stated number of points')
    eq(len(points), len(want), f'{what} number of points')
    for i, (g, w) in enumerate(zip(points, want)):
        check(same(g, w), f'{what} point {i} is {g}, not {[x[1] for x in w]}')
    return want


@sub('command', st.booleans().flatmap(lambda g: st.tuples(command(g), st.just(g), st.lists(st.booleans(), min_size=4, max_size=4))).map(list), quick=800, thorough=30000,
     rule='parameters from the command line, name=value or name value, scanned with and without a grid')
def command_(case, rec):
    from mccode_antlr.run.range import parse_scan_parameters, parameters_to_scan
    spec, grid, separate = case
    args = []
    for (name, text, _, _), sep in zip(spec, separate):
        args += [name, text] if sep and '=' not in text else [f'{name}={text}']
    given_args = list(args)
    parsed = parse_scan_parameters(args)
    eq(args, given_args, 'the arguments after parsing')
    eq(list(parsed), [x[0] for x in spec], f'{args}: names')
    before = {k: str(v) for k, v in parsed.items()}
    want = verify(parameters_to_scan(parsed, grid), spec, grid, f'{args} {"grid" if grid else "scan"}:')
    eq({k: str(v) for k, v in parsed.items()}, before, 'the parameters after the scan')
    # the same parameters can be scanned again, differently
    if all(len(v) == 1 or len(v) == max(len(x[3]) for x in spec) for *_, v in spec):
        verify(parameters_to_scan(parsed, not grid), spec, not grid, f'{args} {"scan" if grid else "grid"} afterwards:')
    rec.label('grid' if grid else 'scan')
    rec.nontrivial(len(want) > 2 and len(spec) > 1, key=[args, grid])


@st.composite
def objects(draw):
    grid = draw(st.booleans())
    n = draw(st.integers(1, 5))
    out = []
    for name in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=0, max_size=4)):
        k = draw(st.sampled_from(['list', 'tuple', 'range', 'singular', 'number', 'word']))
        m = draw(st.integers(1, 5)) if grid else draw(st.sampled_from([n, n, 1]))
        if k == 'range':
            text, values = draw(range_text(m))
            out.append([name, text, 'range', values])
        elif k in ('list', 'tuple'):
            out.append([name, k, 'single', draw(st.lists(single.map(lambda x: x[1]), min_size=m, max_size=m))])
        else:
            v = draw(st.sampled_from(WORDS)) if k == 'word' else draw(st.sampled_from([0, 1, -2.5, 3e10, 7]))
            out.append([name, k, 'single', [v]])
    if out and draw(st.integers(0, 19)) == 19:
        out[draw(st.integers(0, len(out) - 1))][1:] = [draw(st.sampled_from(['list', 'tuple'])), 'single', []]        # no values at all
    return [out, grid]


@sub('objects', objects(), quick=600, thorough=25000, rule='scans over ranges, lists, tuples and single values given from Python')
def objects_(case, rec):
    from mccode_antlr.run.range import parameters_to_scan, MRange, Singular
    spec, grid = case
    given = {}
    n = max([len(x[3]) for x in spec] or [0])
    for name, k, kind, values in spec:
        given[name] = (MRange.from_str(k) if kind == 'range' else list(values) if k == 'list' else tuple(values) if k == 'tuple'
                       else Singular(values[0], [n, 1, None][len(spec) % 3]) if k == 'singular' else values[0])
    what = f'{given} {"grid" if grid else "scan"}:'
    if not spec:
        n_pts, names, points = parameters_to_scan(given, grid)
        eq([n_pts, list(names), list(points)], [0, [], []], 'scan of nothing')
        return
    if not all(x[3] for x in spec):
        try:
            got = parameters_to_scan(dict(given), grid)
        except ValueError:
            rec.label('no-values')
            return
        raise engine.Violation(f'{what} accepted as {got}, although a parameter has no values')
    want = verify(parameters_to_scan(dict(given), grid), spec, grid, what)
    rec.nontrivial(len(want) > 2 and len(spec) > 1, key=case)


@sub('lengths', st.tuples(range_text(), range_text(), st.booleans()).map(list), quick=300, thorough=10000, rule='two ranges of different lengths can not advance together, but form a grid')
def lengths(case, rec):
    from mccode_antlr.run.range import parse_scan_parameters, parameters_to_scan
    (a, va), (b, vb), swap = case
    va, vb = [[a, va], [b, vb]] if not swap else [[b, vb], [a, va]]
    spec = [['x', va[0], 'range', va[1]], ['y', vb[0], 'range', vb[1]]]
    lens = {len(va[1]), len(vb[1])}
    if len(va[1]) * len(vb[1]) > 20000:
        return
    args = [f'{n}={t}' for n, t, _, _ in spec]
    verify(parameters_to_scan(parse_scan_parameters(args), True), spec, True, f'{args} grid:')
    try:
        scan = parameters_to_scan(parse_scan_parameters(args), False)
    except ValueError:
        check(len(lens) == 2 and 1 not in lens, f'{args} can not be scanned')
    else:
        check(len(lens) == 1 or 1 in lens, f'{args} of lengths {sorted(lens)} are scanned together: {scan[0]} points')
        verify(scan, spec, False, f'{args} scan:')
    rec.nontrivial(len(lens) == 2, key=case)
