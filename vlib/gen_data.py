"""Random McStas/McXtrace result files: detector data and simulation summaries, in the format of the C runtime."""
from hypothesis import strategies as st

NUMBER = st.one_of(st.integers(-1000, 1000).map(str), st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: f'{x:g}'), st.floats(0, 1e30, allow_nan=False).map(lambda x: f'{x:.10g}'),
                   st.sampled_from(['0', '1e-30', '-0', '5e-324', '1.7976931348623157e+308', '0.1', '3.14159265358979', '1e+20', '4.9406564584124654e-100']))
POSITIVE = st.one_of(st.integers(0, 1000).map(str), st.floats(0, 1e6, allow_nan=False).map(lambda x: f'{x:g}'), st.sampled_from(['0', '1e-15', '2.5e+20', '0.30000000000000004']))
COUNT = st.one_of(st.integers(0, 10**6), st.sampled_from([0, 0, 1, 10**12])).map(str)
WORDS = ['test', 'Fri Jan  5 10:11:12 2024 (1704445872)', 'a: b', 'x=1', 'Wavelength [AA]', 'L [\\gms]', '', 'a  b', '#1', 'C:\\dir\\x', 'http://www.mccode.org', '(I,I_err)', '50%', 'Å', 'Position #', '"q"', "it's", '1000', '/tmp/a b/run', 'None', 'begin', 'end', '-1 1']
TEXT = st.sampled_from(WORDS)
NAMES = ['a', 'lambda', 'Ei', 'filename', 'Seed2', 'values', 'Param', 'Date_x', 'signal', 'variables', 'Ncount1', 'type', 'x']
PVALUES = ['1', '2.5', 'abc', 'a=b', 'a:b', '/tmp/x y', '', '1e-3', '"s"', 'h#', 'NULL']
COUNTS = st.one_of(st.integers(1, 10**9), st.integers(2**53 - 2, 2**62))     # of particles, also more than a double can hold
RUN = ['Format', 'URL', 'Creator', 'Instrument', 'Ncount', 'Trace', 'Gravitation', 'Seed', 'Directory']


@st.composite
def dat(draw, rank=None):
    """dict(rank, header=[[key, value]…] before the parameters, params, second=[[key, value]…], shape, variables, rows=[[text…]…] as in the file)"""
    rank = draw(st.sampled_from([0, 1, 1, 2, 2])) if rank is None else rank
    ncount = draw(COUNTS)
    first = [[k, str(ncount) if k == 'Ncount' else draw(st.sampled_from(['no', 'yes'])) if k in ('Trace', 'Gravitation') else str(draw(st.integers(1, 10**6))) if k == 'Seed' else draw(TEXT)] for k in RUN]
    if draw(st.integers(0, 3)) == 0:
        first.append(['Nodes', str(draw(st.integers(2, 16)))])
    if draw(st.integers(0, 3)) == 0:
        # any further line of the header, some look like the labels of the blocks of data
        first.append([draw(st.sampled_from(['Data', 'Database', 'Errors', 'Events', 'Events of', 'Data[0]', 'owner'])), draw(TEXT)])
    params = [[n, draw(st.sampled_from(PVALUES))] for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4))]
    m, n = (draw(st.integers(1, 7)) if rank else 1), (draw(st.integers(1, 6)) if rank == 2 else 1)
    comp, file = draw(st.sampled_from(['mon', 'PSD', 'm_1'])), draw(st.sampled_from(['mon.dat', 'a b.dat', 'Lmon', 'PSD.psd']))
    second = [['Date', draw(TEXT)], ['type', ['array_0d', f'array_1d({m})', f'array_2d({m}, {n})'][rank]], ['Source', draw(TEXT)], ['component', comp], ['position', '0 0 1'],
              ['title', draw(TEXT)], ['Ncount', str(ncount)], ['filename', file], ['statistics', draw(st.sampled_from(['None', 'X0=1.5; dX=0.5;', 'X0=1; dX=0.5; Y0=0; dY=1;']))],
              ['signal', draw(st.sampled_from(['None', 'Min=0; Max=2; Mean=1;']))], ['values', ' '.join([draw(POSITIVE), draw(POSITIVE), draw(COUNT)])]]
    variables = draw(st.sampled_from([['I', 'I_err', 'N'], ['I', 'I_err', 'N'], ['Ix', 'err', 'n']]))
    xs = []
    if rank == 1:
        variables = [draw(st.sampled_from(['L', 't', 'x', 'I2']))] + variables
        second += [['xvar', 'L'], ['yvar', '(I,I_err)'], ['xlabel', draw(TEXT)], ['ylabel', draw(TEXT)], ['xlimits', '0.5 10']]
        xs = [draw(NUMBER) for _ in range(m)]
    elif rank == 2:
        second += [['xvar', 'X'], ['yvar', 'Y'], ['xlabel', draw(TEXT)], ['ylabel', draw(TEXT)], ['zvar', 'I'], ['zlabel', draw(TEXT)], ['xylimits', '-5 5 -2 2']]
    elif draw(st.booleans()):
        second += [['yvar', '(I,I_err)'], ['ylabel', draw(TEXT)], ['xlimits', '0 1']]
    else:
        second += [['xylimits', '0 0 0 0']]
    second.append(['variables', ' '.join(variables)])
    cells = [[[draw(POSITIVE) for _ in range(m)] for _ in range(n)], [[draw(POSITIVE) for _ in range(m)] for _ in range(n)], [[draw(COUNT) for _ in range(m)] for _ in range(n)]]
    return dict(rank=rank, first=first, params=params, second=second, variables=variables, xs=xs, cells=cells, m=m, n=n, component=comp, filename=file)


def dat_text(d):
    """as written by the runtime"""
    lines = [f'# {k}: {v}' for k, v in d['first']] + [f'# Param: {k}={v}' for k, v in d['params']] + [f'# {k}: {v}' for k, v in d['second']]
    if d['rank'] == 2:
        for i, (label, v) in enumerate(zip(('Data', 'Errors', 'Events'), d['variables'])):
            lines.append(f'# {label} [{d["component"]}/{d["filename"]}] {v}:')
            lines += [' '.join(row) + ' ' for row in d['cells'][i]]
    elif d['rank'] == 1:
        lines += [' '.join([x] + [d['cells'][k][0][i] for k in range(3)]) + ' ' for i, x in enumerate(d['xs'])]
    else:
        lines.append(' '.join(d['cells'][k][0][0] for k in range(3)))
    return '\n'.join(lines) + '\n'


# -------------------------------------------------------------------------------- summaries
def keep(k, draw):
    return draw(TEXT)


@st.composite
def detector(draw, component, suffix=''):
    rank = draw(st.sampled_from([0, 0, 1, 2]))
    d = [['Date', draw(TEXT)], ['type', ['array_0d', 'array_1d(100)', 'array_2d(90, 90)'][rank]], ['Source', draw(TEXT)], ['component', component], ['position', '0 0 1.5'], ['title', draw(TEXT)], ['Ncount', str(draw(st.integers(1, 10**9)))]]
    if rank or suffix or draw(st.booleans()):
        d.append(['filename', component + suffix + '.dat'])
    stats = draw(st.sampled_from([0, 1, 1]))
    pair = lambda a, b: f'{a}={draw(NUMBER)}; {b}={draw(POSITIVE)};'
    d += [['statistics', 'None' if not stats or not rank else pair('X0', 'dX') if rank == 1 else pair('X0', 'dX') + ' ' + pair('Y0', 'dY')],
          ['signal', 'None' if not stats else f'Min={draw(POSITIVE)}; Max={draw(POSITIVE)}; Mean={draw(POSITIVE)};'], ['values', ' '.join([draw(POSITIVE), draw(POSITIVE), draw(COUNT)])]]
    if rank == 1:
        d += [['xvar', 'L'], ['yvar', '(I,I_err)'], ['xlabel', draw(TEXT)], ['ylabel', draw(TEXT)], ['xlimits', '0 10'], ['variables', 'L I I_err N']]
    elif rank == 2:
        d += [['xvar', 'X'], ['yvar', 'Y'], ['xlabel', draw(TEXT)], ['ylabel', draw(TEXT)], ['zvar', 'I'], ['zlabel', draw(TEXT)], ['xylimits', '-1 1 -1 1'], ['variables', 'I I_err N']]
    else:
        d += [['xylimits', '0 0 0 0'], ['variables', 'I I_err N']]
    return d


@st.composite
def sim(draw):
    yes = lambda: draw(st.sampled_from(['yes', 'no']))
    head = [draw(st.sampled_from(['McStas simulation description file for /tmp/x.', 'description'])), ['Date', draw(TEXT)], ['Program', draw(TEXT)]]
    instr = [draw(st.sampled_from(['verif', 'a_b', '/tmp/x.instr'])), ['File', draw(TEXT)], ['Source', draw(TEXT)], ['Parameters', draw(st.sampled_from(['', 'a(double) b(string)', 'x(int)']))], ['Trace_enabled', yes()], ['Default_main', yes()], ['Embedded_runtime', yes()]]
    run = [draw(st.sampled_from(['/tmp/run', 'run 1', '.'])), ['Format', draw(TEXT)], ['URL', draw(TEXT)], ['Creator', draw(TEXT)], ['Instrument', draw(TEXT)], ['Ncount', str(draw(st.integers(1, 10**9)))], ['Trace', yes()], ['Gravitation', yes()],
           ['Seed', str(draw(st.integers(1, 10**6)))], ['Directory', draw(TEXT)]]
    if draw(st.integers(0, 3)) == 0:
        run.append(['Nodes', str(draw(st.integers(2, 16)))])
    run += [['Param', f'{n}={draw(st.sampled_from(PVALUES))}'] for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4))]
    # a component can have several detectors, each with its own file
    data = [draw(detector(c, s)) for c, s in draw(st.lists(st.tuples(st.sampled_from(['m1', 'm1', 'm2', 'm3', 'mon', 'PSD']), st.sampled_from(['', '', '_1', '.a'])), unique=True, max_size=4))]
    return dict(head=head, instr=instr, run=run, data=data)


def sim_text(s, indent='  '):
    show = lambda rows: ''.join(f'{indent}{k}: {v}\n' for k, v in rows)
    out = s['head'][0] + '\n' + ''.join(f'{k}: {v}\n' for k, v in s['head'][1:])
    out += f'\nbegin instrument: {s["instr"][0]}\n{show(s["instr"][1:])}end instrument\n\nbegin simulation: {s["run"][0]}\n{show(s["run"][1:])}end simulation\n\n'
    return out + ''.join(f'begin data\n{show(d)}end data\n\n' for d in s['data'])
