"""D02: simulation summary files are read, written and combined without loss."""
from math import hypot, isclose
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, gen_data
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least two detectors'
ASSUMPTIONS = ['files are those written by the C runtime', 'a repeat has the same instrument and parameters; its seed, particle count, directory, date and results can differ',
               'the combined statistics, and the mean of the signal, are estimates: they are independent of the order of two runs and means are between those of the runs']


def value(v):
    return v.strip()


def verify(got, s, what):
    """the summary object has all that was stated"""
    eq([got.header.description, got.header.Date, got.header.Program], [value(s['head'][0])] + [value(v) for _, v in s['head'][1:]], f'{what} header')
    eq(got.instrument.name, value(s['instr'][0]), f'{what} instrument')
    for k, v in s['instr'][1:]:
        eq(getattr(got.instrument, k), v == 'yes' if k in ('Trace_enabled', 'Default_main', 'Embedded_runtime') else value(v), f'{what} instrument {k}')
    eq(got.simulation.name, value(s['run'][0]), f'{what} simulation')
    for k, v in s['run'][1:]:
        if k not in ('Param', 'Nodes'):
            eq(getattr(got.simulation, k), v == 'yes' if k in ('Trace', 'Gravitation') else int(v) if k in ('Ncount', 'Seed') else value(v), f'{what} simulation {k}')
    eq(got.simulation.Params, [value(v) for k, v in s['run'][1:] if k == 'Param'], f'{what} parameters')
    eq(len(got.data), len(s['data']), f'{what} number of detectors')
    for g, d in zip(got.data, s['data']):
        for k, v in d:
            eq(getattr(g, k), int(v) if k == 'Ncount' else value(v), f'{what} detector {k}')


def lines(text):
    """content without indentation and blank lines"""
    return [' '.join(l.split()) for l in text.splitlines() if l.strip()]


def place(s, folder, name):
    p = Path(folder) / name
    p.write_text(gen_data.sim_text(s), encoding='utf-8')
    return p


@sub('read', gen_data.sim(), quick=700, thorough=30000, rule='summaries are read, written and read again')
def read(s, rec):
    from mccode_antlr.loader import read_mccode_sim
    with cgen.scratch() as folder:
        p = place(s, folder, 'mccode.sim')
        text = p.read_text()
        got = read_mccode_sim(p if s['data'] else str(p))
        verify(got, s, f'{text} read:')
        out = Path(folder) / 'b.sim'
        got.save(out)
        eq(lines(out.read_text()), lines(text), 'the file written')
        again = read_mccode_sim(out)
        verify(again, s, f'{text} written and read:')
        check(again == got, f'{text} differs after it is written and read')
        check(again.simulation == got.simulation, f'{text} simulation differs after it is written and read')
        eq(p.read_text(), text, 'original file')
    rec.label(f'detectors{len(s["data"])}')
    rec.nontrivial(len(s['data']) > 1, key=s)


DESCRIPTION = st.sampled_from(['McStas simulation description file for /tmp/x.', 'description', 'a description', 'x'])


def change(draw, key, old):
    return {'Ncount': str(draw(st.integers(1, 10**9))), 'Seed': str(draw(st.sampled_from([1, 12, 123, 1000])))}.get(key, old)


@st.composite
def repeats(draw):
    """[summary, further runs of it], detectors of some runs only"""
    base = draw(gen_data.sim())
    moved = draw(st.booleans())
    out = [base]
    for i in range(draw(st.integers(1, 3))):
        run = [f'/tmp/run{i}' if moved else base['run'][0]] + [[k, f'dir{i}' if k == 'Directory' and moved else change(draw, k, v)] for k, v in base['run'][1:]]
        nodes = draw(st.sampled_from(['same', 'same', None, '4']))
        if nodes != 'same':
            # run on another number of computers, which is not part of the result
            run = [x for x in run if x[0] != 'Nodes']
            run[10:10] = [['Nodes', nodes]] if nodes else []
        data = []
        for d in base['data']:
            new = dict(Date=draw(gen_data.TEXT), Ncount=str(draw(st.integers(1, 10**9))), values=' '.join([draw(gen_data.POSITIVE), draw(gen_data.POSITIVE), draw(gen_data.COUNT)]))
            if draw(st.integers(0, 5)) == 0:
                # a run without events in this detector
                new[draw(st.sampled_from(['statistics', 'signal']))] = 'None'
            data.append([[k, new.get(k, v)] for k, v in d])
        extra = draw(st.sampled_from([None, None, 'drop', 'add']))
        if extra == 'drop' and data:
            data.pop(draw(st.integers(0, len(data) - 1)))
        if extra == 'add':
            data.append(draw(gen_data.detector(*draw(st.sampled_from([(f'new{i}',), (f'new{i}', '_1'), ('m1', f'_new{i}')])))))
        other = draw(st.integers(0, 3)) == 0
        out.append(dict(head=[draw(DESCRIPTION) if other else base['head'][0], ['Date', draw(gen_data.TEXT)], ['Program', draw(gen_data.TEXT)] if other else base['head'][2]], instr=base['instr'], run=run, data=data))
    return out


def close(a, b):
    return a == b or isclose(a, b, rel_tol=1e-12)


def ident(d):
    d = dict(d)
    return d['component'], value(d['filename']) if 'filename' in d else None


def verify_kept(got, texts, what):
    """what all have in common, or else something with each of them"""
    texts = [value(x) for x in texts]
    if len(set(texts)) == 1:
        eq(got, texts[0], what)
    for x in texts:
        check(x in got, f'{what}: {got!r} lacks {x!r}')


def verify_sum(got, all_, what):
    verify_kept(got.header.description, [s['head'][0] for s in all_], f'{what} description')
    for i, k in (1, 'Date'), (2, 'Program'):
        verify_kept(getattr(got.header, k), [s['head'][i][1] for s in all_], f'{what} {k}')
    base = all_[0]
    runs = [dict(s['run'][1:]) for s in all_]
    eq(got.simulation.Ncount, sum(int(r['Ncount']) for r in runs), f'{what} Ncount')
    eq(got.simulation.Params, [value(v) for k, v in base['run'][1:] if k == 'Param'], f'{what} parameters')
    if len({r.get('Nodes') for r in runs}) == 1:
        eq(got.simulation.Nodes, int(runs[0]['Nodes']) if 'Nodes' in runs[0] else None, f'{what} Nodes')
    for k, v in base['run'][1:]:
        if k not in ('Param', 'Nodes', 'Ncount', 'Seed', 'Directory'):
            eq(getattr(got.simulation, k), v == 'yes' if k in ('Trace', 'Gravitation') else value(v), f'{what} simulation {k}')
    eq(got.instrument.name, value(base['instr'][0]), f'{what} instrument')
    for k, v in base['instr'][1:]:
        eq(getattr(got.instrument, k), v == 'yes' if k in ('Trace_enabled', 'Default_main', 'Embedded_runtime') else value(v), f'{what} instrument {k}')
    found = {}
    for s in all_:
        for d in s['data']:
            found.setdefault(ident(d), []).append(dict(d))
    eq([(d.component, d.filename) for d in got.data], list(found), f'{what} detectors')
    for g, ds in zip(got.data, found.values()):
        about = f'{what} {ds[0]["component"]}'
        eq(g.Ncount, sum(int(d['Ncount']) for d in ds), f'{about} Ncount')
        v = [[float(x) for x in d['values'].split()] for d in ds]
        t = [float(x) for x in g.values.split()]
        for name, a, b in zip(('intensity', 'error', 'count'), t, (sum(x[0] for x in v), hypot(*[x[1] for x in v]), sum(x[2] for x in v))):
            check(close(a, b), f'{about} {name} is {a}, not {b}')
        extremes = [[float(x.split('=')[1]) for x in d['signal'].split(';')[:2]] for d in ds if 'None' not in d['signal']]
        if len(extremes) == len(ds):
            lo, hi = [float(x.split('=')[1]) for x in g.signal.split(';')[:2]]
            eq([lo, hi], [min(x[0] for x in extremes), max(x[1] for x in extremes)], f'{about} extremes of the signal')
        for k, x in ds[0].items():
            if k not in ('Date', 'Ncount', 'values', 'statistics', 'signal'):
                eq(getattr(g, k), value(x), f'{about} {k}')


def numbers(text):
    """The numbers in, e.g., X0=1; dX=2;"""
    return {} if 'None' in text else {k: float(v) for k, v in (x.strip().split('=') for x in text.strip().rstrip(';').split(';'))}


def verify_estimates(a, b, sims, what):
    """the estimated statistics of two runs do not depend on their order, and a mean is between those of the runs"""
    for x in a.data:
        ys = [y for y in b.data if (y.component, y.filename) == (x.component, x.filename)]
        eq(len(ys), 1, f'{what} {x.component} in the other order')
        of = [y for s in sims for y in s.data if (y.component, y.filename) == (x.component, x.filename)]
        for name in ('statistics', 'signal'):
            one, two = numbers(getattr(x, name)), numbers(getattr(ys[0], name))
            about = f'{what} {x.component} {name}'
            eq(sorted(two), sorted(one), f'{about} in the other order')
            for k, v in one.items():
                check(close(v, two[k]) or v != v and two[k] != two[k], f'{about} {k} is {v} in one order and {two[k]} in the other')
                means = [numbers(getattr(y, name)).get(k) for y in of]
                if k in ('X0', 'Y0', 'Mean') and None not in means and max(map(abs, means)) < 1e290:
                    margin = 1e-9 * max(map(abs, means))
                    check(min(means) - margin <= v <= max(means) + margin, f'{about} {k} is {v} for runs with {means}')


@sub('combine', repeats(), quick=600, thorough=25000, rule='repeated runs, each with its own directory or in the same one, are combined from objects and files in any order')
def combine(all_, rec):
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims, write_combined_mccode_sims
    with cgen.scratch() as folder, cgen.quiet():
        paths = [place(s, folder, f'{i}.sim') for i, s in enumerate(all_)]
        sims = [read_mccode_sim(p) for p in paths]
        what = f'{[gen_data.sim_text(s) for s in all_]} combined:'
        verify_sum(combine_mccode_sims(sims), all_, what)
        for i, (s, x) in enumerate(zip(sims, all_)):
            verify(s, x, f'{what} run {i} afterwards')
        verify_sum(combine_mccode_sims(sims[::-1]), all_[::-1], what + ' in reverse')
        verify_estimates(combine_mccode_sims(sims[:2]), combine_mccode_sims(sims[1::-1]), sims[:2], what)
        if len(sims) > 2:
            verify_sum(combine_mccode_sims([combine_mccode_sims(sims[:2])] + sims[2:]), all_, what + ' by parts')
            verify_sum(combine_mccode_sims([sims[0], combine_mccode_sims(sims[1:])]), all_, what + ' by other parts')
        out = Path(folder) / 'out.sim'
        write_combined_mccode_sims(paths, out)
        verify_sum(read_mccode_sim(out), all_, what + ' in a file')
    rec.label(f'runs{len(all_)}')
    rec.nontrivial(len(all_[0]['data']) > 1, key=all_)


@sub('refused', st.tuples(repeats(), st.integers(0, 99)).map(list), quick=400, thorough=15000, rule='results of the same detector which differ in more than the counts are not combined')
def refused(case, rec):
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims
    all_, which = case
    a, b = all_[:2]
    common = [d for d in b['data'] if ident(d) in [ident(x) for x in a['data']]]
    if not common:
        return
    keys = [(d, k) for d in common for k, _ in d if k not in ('Date', 'Ncount', 'values', 'statistics', 'signal', 'component', 'filename')]
    d, key = keys[which % len(keys)]
    change = lambda v: 'array_1d(101)' if key == 'type' and 'array_1d(101)' != v and False else v + 'x'
    b = dict(b, data=[[[k, change(v) if k == key and x is d else v] for k, v in x] for x in b['data']])
    with cgen.scratch() as folder, cgen.quiet():
        sims = [read_mccode_sim(place(s, folder, f'{i}.sim')) for i, s in enumerate((a, b))]
        for x in (sims, sims[::-1]):
            try:
                combine_mccode_sims(x)
            except RuntimeError:
                pass
            else:
                raise engine.Violation(f'detectors which differ in {key} are combined: {gen_data.sim_text(a)} and {gen_data.sim_text(b)}')
    rec.label(key)
    rec.nontrivial(len(common) > 1, key=case)


@st.composite
def others(draw):
    """summaries of runs which differ in their parameters, instrument or flags"""
    base = draw(gen_data.sim())
    out = [base]
    for i in range(draw(st.integers(1, 2))):
        yes = lambda k, v: draw(st.sampled_from(['yes', 'no', v])) if v in ('yes', 'no') else v
        params = [x for x in base['run'][1:] if x[0] == 'Param' and draw(st.integers(0, 3))] + [['Param', f'{n}=1'] for n in draw(st.lists(st.sampled_from(['new', f'new{i}']), unique=True, max_size=2))]
        run = [draw(st.sampled_from([base['run'][0], f'/tmp/run{i}']))] + [[k, yes(k, v)] for k, v in base['run'][1:] if k not in ('Param', 'Nodes')] + params
        instr = [draw(st.sampled_from([base['instr'][0], 'verif_longer']))] + [[k, draw(st.sampled_from([v, 'a(double) c(int)'])) if k == 'Parameters' else yes(k, v)] for k, v in base['instr'][1:]]
        head = [draw(DESCRIPTION), ['Date', draw(gen_data.TEXT)], ['Program', draw(gen_data.TEXT)]]
        out.append(dict(head=head, instr=instr, run=run, data=[draw(gen_data.detector(f'new{i}', s)) for s in draw(st.lists(st.sampled_from(['', '_1']), unique=True))]))
    return out


def flag(v):
    return v == 'yes' if v in ('yes', 'no') else v


@sub('extended', others(), quick=400, thorough=15000, rule='summaries of runs which are not repeats, in any order')
def extended(all_, rec):
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims
    what = f'{[gen_data.sim_text(s) for s in all_]} combined:'
    with cgen.scratch() as folder, cgen.quiet():
        sims = [read_mccode_sim(place(s, folder, f'{i}.sim')) for i, s in enumerate(all_)]
        found = []
        for order in (1, -1):
            got = combine_mccode_sims(sims[::order])
            verify_kept(got.header.description, [s['head'][0] for s in all_], f'{what} description')
            for section, of in ('instr', got.instrument), ('run', got.simulation):
                verify_kept(of.name, [s[section][0] for s in all_], f'{what} name of {section}')
                for k, v in all_[0][section][1:]:
                    values = [dict(s[section][1:]).get(k) for s in all_]
                    if v in ('yes', 'no') and k not in ('Format', 'URL', 'Creator', 'Instrument', 'Directory', 'File', 'Source', 'Parameters') and len(set(values)) == 1:
                        eq(getattr(of, k), v == 'yes', f'{what} {k}')
            eq(set(got.instrument.Parameters.split()), {p for s in all_ for p in dict(s['instr'][1:])['Parameters'].split()}, f'{what} instrument parameters')
            eq(sorted(got.simulation.Params), sorted({value(v) for s in all_ for k, v in s['run'][1:] if k == 'Param'}), f'{what} parameters')
            eq(sorted((d.component, d.filename or '') for d in got.data), sorted((i[0], i[1] or '') for i in {ident(d) for s in all_ for d in s['data']}), f'{what} detectors')
            found.append([got.instrument.Trace_enabled, got.instrument.Default_main, got.instrument.Embedded_runtime, got.simulation.Trace, got.simulation.Gravitation])
        eq(found[1], found[0], f'{what} flags in the other order')
        for i, (s, x) in enumerate(zip(sims, all_)):
            verify(s, x, f'{what} run {i} afterwards')
    rec.nontrivial(len(all_) > 2 or len(all_[0]['data']) > 1, key=all_)
