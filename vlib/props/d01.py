"""D01: detector data files are read, written and combined without loss."""
from math import hypot, isclose, sqrt
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, gen_data
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least two bins, or a detector without bins that is combined'
ASSUMPTIONS = ['files are those written by the C runtime: zero, one and two dimensional detectors; event lists are refused by the reader and no input',
               'the errors of different runs are independent', 'the header lines statistics and signal of a combination are those of one of the runs']


def value(v):
    """white space around header values is not significant"""
    return v.strip()


def cells(d):
    """the expected array of variables, with the shape the reader gives"""
    rows = [[[float(x) for x in row] for row in block] for block in d['cells']]
    if d['rank'] == 2:
        return rows
    if d['rank'] == 1:
        return [[float(x) for x in d['xs']]] + [r[0] for r in rows]
    return [r[0][0] for r in rows]


def verify(dat, d, what, data=None, drop=()):
    eq(dat.data.tolist(), cells(d) if data is None else data, f'{what} data')
    eq(list(dat.variables), d['variables'], f'{what} variables')
    eq({k: v for k, v in dat.parameters.items()}, {k: value(v) for k, v in d['params']}, f'{what} parameters')
    for k, v in d['first'] + d['second']:
        if k not in drop:
            eq(str(dat.metadata.get(k)), value(v), f'{what} header {k}')
    for i, v in enumerate(d['variables']):
        eq(dat[v].tolist(), dat.data[i].tolist(), f'{what} variable {v}')
    for k, v in d['params']:
        if k not in d['variables']:
            eq(dat[k], value(v), f'{what} parameter {k}')
    eq(type(dat).__name__, f'DatFile{d["rank"]}D', f'{what} class')


def place(d, folder, name):
    p = Path(folder) / name
    p.write_text(gen_data.dat_text(d), encoding='utf-8')
    return p


@sub('read', gen_data.dat(), quick=700, thorough=30000, rule='files are read, written and read again')
def read(d, rec):
    from mccode_antlr.loader import read_mccode_dat
    with cgen.scratch() as folder:
        p = place(d, folder, 'a.dat')
        text = p.read_text()
        dat = read_mccode_dat(p if len(d['params']) % 2 else str(p))
        verify(dat, d, f'{text}read:')
        check(Path(dat.source) == p.resolve(), 'source')
        out = Path(folder) / 'b.dat'
        dat.to_filename(str(out))
        again = read_mccode_dat(out)
        verify(again, d, f'{text}read, written as {out.read_text()} and read again:')
        eq({k: v for k, v in again.metadata.items()}, {k: v for k, v in dat.metadata.items()}, 'all header lines after writing')
        keys = [l.split(':')[0].strip('# ') for l in out.read_text().splitlines() if l.startswith('#')]
        eq([k for k in keys if k in [x[0] for x in d['second']]][-1], 'variables', 'last header line')
        before = out.read_text()
        try:
            dat.to_filename(str(out))
        except RuntimeError:
            pass
        else:
            raise engine.Violation('an existing file is overwritten')
        eq(out.read_text(), before, 'existing file')
        eq(p.read_text(), text, 'original file')
    rec.label(f'rank{d["rank"]}')
    rec.nontrivial(d['m'] * d['n'] > 1, key=d)


@st.composite
def repeats(draw):
    """a detector file and further runs of it: values of the cells, Ncount, and header lines which may differ"""
    d = draw(gen_data.dat())
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        c = [[[draw(gen_data.COUNT if k == 2 else gen_data.POSITIVE) for _ in row] for row in block] for k, block in enumerate(d['cells'])]
        runs.append(dict(cells=c, ncount=str(draw(gen_data.COUNTS)), seed=str(draw(st.sampled_from([1, 12, 123, 1000]))), directory=draw(st.sampled_from(['run', 'run1', 'run12', '1', '/tmp/x'])), date=draw(gen_data.TEXT),
                         values=' '.join([draw(gen_data.POSITIVE), draw(gen_data.POSITIVE), draw(gen_data.COUNT)]), stats=draw(st.sampled_from(['None', 'X0=7; dX=2;']))))
    return [d, runs]


def run_of(d, r):
    new = dict(Ncount=r['ncount'], Seed=r['seed'], Directory=r['directory'], Date=r['date'], values=r['values'], statistics=r['stats'])
    return dict(d, cells=r['cells'], first=[[k, new.get(k, v)] for k, v in d['first']], second=[[k, new.get(k, v)] for k, v in d['second']])


def close(a, b):
    return a == b or isclose(a, b, rel_tol=1e-12)


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def expected(all_):
    """combined cells: intensities and counts add, errors in quadrature"""
    arrays = [[flat(b) for b in [[[float(x) for x in row] for row in block] for block in d['cells']]] for d in all_]
    return [[sum(col) for col in zip(*[a[0] for a in arrays])], [hypot(*col) for col in zip(*[a[1] for a in arrays])], [sum(col) for col in zip(*[a[2] for a in arrays])]]


def verify_sum(one, all_, what):
    d = all_[0]
    got = [flat(x) for x in one.data[-3:].tolist()]
    for name, g, w in zip(d['variables'][-3:], got, expected(all_)):
        eq(len(g), len(w), f'{what} size')
        for i, (a, b) in enumerate(zip(g, w)):
            check(close(a, b), f'{what} {name} of bin {i} is {a}, not {b}')
    if d['rank'] == 1:
        eq(one.data[0].tolist(), [float(x) for x in d['xs']], f'{what} bins')
    head = [dict(x['first'] + x['second']) for x in all_]
    eq(int(one.metadata['Ncount']), sum(int(h['Ncount']) for h in head), f'{what} Ncount')
    v = [[float(x) for x in h['values'].split()] for h in head]
    for name, a, b in zip(('intensity', 'error', 'count'), map(float, one.metadata['values'].split()), (sum(x[0] for x in v), hypot(*[x[1] for x in v]), sum(x[2] for x in v))):
        check(close(a, b), f'{what} total {name} is {a}, not {b}')
    eq(dict(one.parameters), {k: value(x) for k, x in d['params']}, f'{what} parameters')
    eq(list(one.variables), d['variables'], f'{what} variables')
    special = 'Ncount', 'Seed', 'Directory', 'Date', 'values', 'statistics', 'signal'
    for k, x in d['first'] + d['second']:
        if k not in special:
            eq(one.metadata[k], value(x), f'{what} header {k}')
    for k in ('Seed', 'Directory'):
        eq(sorted(set(one.metadata[k].split())), sorted({w for h in head for w in h[k].split()}), f'{what} header {k}')
    eq(type(one).__name__, f'DatFile{d["rank"]}D', f'{what} class')


@sub('combine', repeats(), quick=500, thorough=20000, rule='repeated runs are combined, from objects and files, in any order')
def combine(case, rec):
    from mccode_antlr.loader import read_mccode_dat, write_combined_mccode_dats
    from mccode_antlr.loader.datfile import combine_mccode_dats
    d, runs = case
    d = dict(d, first=[[k, 'base' if k == 'Directory' else v] for k, v in d['first']])
    all_ = [d] + [run_of(d, r) for r in runs]
    with cgen.scratch() as folder:
        paths = [place(x, folder, f'{i}.dat') for i, x in enumerate(all_)]
        dats = [read_mccode_dat(p) for p in paths]
        what = f'{[gen_data.dat_text(x) for x in all_]} combined:'
        verify_sum(combine_mccode_dats(dats), all_, what)
        for x, p, i in zip(dats, all_, range(9)):
            verify(x, p, f'{what} run {i} afterwards')
        back = combine_mccode_dats(dats[::-1])
        verify_sum(back, all_[::-1], what + ' in reverse')
        if len(dats) > 2:
            verify_sum(dats[0] + (dats[1] + dats[2]), all_[:3], what + ' associated')
        out = Path(folder) / 'out.dat'
        write_combined_mccode_dats(paths, out)
        verify_sum(read_mccode_dat(out), all_, what + ' in a file')
    rec.label(f'rank{d["rank"]}')
    rec.nontrivial(d['m'] * d['n'] > 1 or d['rank'] == 0, key=case)


@sub('refused', st.tuples(gen_data.dat(), st.integers(0, 9), st.integers(0, 99), gen_data.dat()).map(list), quick=500, thorough=20000, rule='files of different detectors or parameters are not combined')
def refused(case, rec):
    from mccode_antlr.loader import read_mccode_dat
    d, how, which, e = case
    other = dict(d)
    if how == 0:
        if e['rank'] == d['rank'] and e['m'] == d['m'] and e['n'] == d['n']:
            return
        other = e
        what = 'other detector'
    elif how in (1, 2) and d['params']:
        k = which % len(d['params'])
        other['params'] = [[n, v + '7' if i == k else v] for i, (n, v) in enumerate(d['params'])]
        what = f'parameter {d["params"][k][0]}'
    elif how == 3 and d['params']:
        other['params'] = d['params'][:-1]
        what = 'missing parameter'
    elif how == 4:
        other['params'] = d['params'] + [['extra', '1']]
        what = 'additional parameter'
    elif how == 5:
        other['variables'] = d['variables'][:-1] + ['M']
        other['second'] = d['second'][:-1] + [['variables', ' '.join(other['variables'])]]
        what = 'variables'
    else:
        keys = [k for k, _ in d['first'] + d['second'] if k in ('Instrument', 'component', 'position', 'title', 'xlabel', 'xlimits', 'xylimits', 'ylabel', 'zlabel', 'Gravitation', 'Creator', 'xvar', 'Source', 'URL', 'Trace', 'yvar', 'zvar', 'Format')]
        key = keys[which % len(keys)]
        change = lambda v: '0.5 20' if key == 'xlimits' else '-5 5 -2 3' if key == 'xylimits' else v + 'x'
        gone = how == 6 and key not in ('xlimits', 'xylimits', 'component')
        for part in ('first', 'second'):
            other[part] = [[k, change(v) if k == key else v] for k, v in d[part] if not gone or k != key]
        what = f'header {key}' + ', which one lacks' * gone
    with cgen.scratch() as folder:
        a, b = [read_mccode_dat(place(x, folder, f'{i}.dat')) for i, x in enumerate((d, other))]
        for x, y in ((a, b), (b, a)):
            try:
                x + y
            except RuntimeError:
                pass
            else:
                raise engine.Violation(f'{gen_data.dat_text(d)} and {gen_data.dat_text(other)} differ in {what} and are combined')
        verify(a, d, 'the first file afterwards')
    rec.label(what.split()[0])
    rec.nontrivial(d['m'] * d['n'] > 1, key=case)
