"""G01: files are resolved by exact name, from the first registry which has them."""
import hashlib
import os
import re
import shutil
import subprocess
from pathlib import Path

from hypothesis import strategies as st

from vlib import cgen, engine, lib
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: the file asked for exists, and another file has a similar name or the same name'
ASSUMPTIONS = ['no network: the files of remote file lists are already in the cache',
               'an in-memory registry has no folders; a name which is several times in one local folder tree, and not at its top, is refused as ambiguous',
               'only remote file lists, as the code says, accept a name without its extension']

STEMS = ('Guide', 'Guide_g', 'My_Guide', 'uide', 'Gui', 'guide', 'Guide2', 'Guide-lib', 'G[u]ide', 'Gui*')
EXTS = ('.comp', '.instr', '.h', '.c', '.h.in', '', '.comp.orig', '.comp~')
DIRS = ('', '', 'optics', 'share', 'a/optics', 'my-share', 'optics/share')
KINDS = ('memory', 'local', 'remote')


@st.composite
def files(draw, kind, stems=STEMS, exts=EXTS):
    n = draw(st.sampled_from((0, 1, 2, 3, 3, 4, 5)))
    out = []
    for _ in range(n):
        base = draw(st.sampled_from(stems)) + draw(st.sampled_from(exts))
        folder = '' if kind == 'memory' else draw(st.sampled_from(DIRS))
        path = f'{folder}/{base}' if folder else base
        if path not in out and not any(path in DIRS or p.startswith(path + '/') or path.startswith(p + '/') for p in out):
            out.append(path)
    return out


@st.composite
def registries(draw, stems=STEMS, exts=EXTS, low=1, high=4, kinds=KINDS):
    out = []
    for i in range(draw(st.integers(low, high))):
        kind = draw(st.sampled_from(kinds))
        out.append({'kind': kind, 'priority': draw(st.sampled_from([None, -10, 0, 0, 5, 10, 100])),
                    'name': draw(st.sampled_from(('reg', 'reg1', 'my-reg', 'eg'))) + ('' if i == 0 else f'-{i}'),
                    'files': draw(files(kind, stems, exts))})
    return out


DEFAULT = {'memory': 100, 'local': 10, 'remote': 0}


def priority(r):
    return DEFAULT[r['kind']] if r['priority'] is None else r['priority']


class World:
    """Registries made from their description; contents name their registry and path"""
    count = 0

    def __init__(self, specs, folder, text=None, rename=True):
        self.rename, self.folder, self.text, self.caches = rename, Path(folder), text or (lambda i, path: f'text of {path} in {i}\n'), []
        self.specs = [dict(s, id=i, files=list(s['files'])) for i, s in enumerate(specs)]
        self.objects = [self.make(s) for s in self.specs]

    def make(self, s):
        from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry, ModuleRemoteRegistry
        more = {} if s['priority'] is None else {'priority': s['priority']}
        if s['kind'] == 'memory':
            reg = InMemoryRegistry(s['name'], **more)
            for f in s['files']:
                reg.add(f, self.text(s['id'], f))
            return reg
        # all folders have the same last name
        root = self.folder / f'r{s["id"]}' / 'lib'
        root.mkdir(parents=True)
        if s['kind'] == 'local':
            reg = LocalRegistry(s['name'], str(root), **more)
        else:
            World.count += 1
            listing = self.folder / f'list{s["id"]}.txt'
            listing.write_text(''.join(f'{f} {hashlib.sha256(self.text(s["id"], f).encode()).hexdigest()}\n' for f in s['files']))
            reg = ModuleRemoteRegistry(f'verif-g01-{os.getpid()}-{World.count}', 'https://localhost.invalid/', filename=listing, version='v1', **more)
            if self.rename:
                reg.name = s['name']
            root = Path(reg.pooch.abspath)
            self.caches.append(root)
        for f in s['files']:
            p = root / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(self.text(s['id'], f))
        return reg

    def __enter__(self):
        return self

    def __exit__(self, *_):
        for c in self.caches:
            if 'verif-g01-' in str(c):
                shutil.rmtree(c.parent, ignore_errors=True)

    def ordered(self):
        return sorted(self.specs, key=priority, reverse=True)


def with_ext(name, ext):
    return name if ext is None or name.endswith(ext) else name + ext


def matches(s, name, ext=None):
    """the files of this name which a registry has; the first of the two lists is without doubt"""
    full = with_ext(name, ext)
    if s['kind'] == 'memory':
        return [f for f in s['files'] if f == full]
    out = [f for f in s['files'] if f == full]
    if out:
        return out
    out = [f for f in s['files'] if f.endswith('/' + full)]
    if out or s['kind'] == 'local' or ext is not None or Path(name).suffix:
        return out
    stem = [(Path(f).with_suffix('').as_posix(), f) for f in s['files']]
    return [f for t, f in stem if t == full] or [f for t, f in stem if t.endswith('/' + full)]


def expected(order, name, ext=None):
    for s in order:
        m = matches(s, name, ext)
        if m:
            return s, m
    return None, []


def ask(fun, *a, **k):
    try:
        return fun(*a, **k), None
    except (RuntimeError, KeyError) as e:
        return None, e


def identify(world, s, path):
    """the name, in its registry, of what was located"""
    p = str(path)
    if s['kind'] == 'local':
        root = str(world.folder / f'r{s["id"]}' / 'lib') + '/'
    elif s['kind'] == 'remote':
        root = str(world.objects[s['id']].pooch.abspath) + '/'
    else:
        root = '/proc/memory/'
    check(p.startswith(root), f'{p} is not in the registry {s}')
    return p[len(root):]


def similar(world, name):
    stem = Path(name).name.split('.')[0]
    return sum(stem in f for s in world.specs for f in s['files']) > 1


def queries(stems=STEMS, exts=EXTS):
    return st.tuples(st.sampled_from(stems), st.sampled_from(exts), st.sampled_from(('', '', '', 'optics', 'share', 'ptics', 'a/optics')),
                     st.sampled_from((None, None, '.comp', '.h', '.instr'))).map(lambda q: [(q[2] + '/' if q[2] else '') + q[0] + q[1], q[3]])

existing = st.tuples(st.integers(0, 30), st.booleans(), st.booleans())


@st.composite
def lookups(draw):
    # few different names, for many which are similar
    stems = draw(st.one_of(st.just(STEMS), st.lists(st.sampled_from(STEMS), unique=True, min_size=2, max_size=4), st.sampled_from([('Guide', 'G[u]ide'), ('Guide', 'Gui*'), ('Guide', 'guide', 'uide')])))
    exts = draw(st.one_of(st.just(EXTS), st.lists(st.sampled_from(EXTS), unique=True, min_size=1, max_size=2)))
    regs = draw(registries(stems, exts))
    ops = []
    known = [f for r in regs for f in r['files']]
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(('query',) * 7 + ('prepend', 'append', 'add')))
        if kind == 'query':
            if known and draw(st.booleans()):
                f = draw(st.sampled_from(known))
                if draw(st.booleans()):
                    f = f.rsplit('/', 1)[-1]
                ext = None
                if draw(st.booleans()) and '.' in f:
                    f, ext = f.rsplit('.', 1)[0], '.' + f.rsplit('.', 1)[1]
                ops.append(['query', [f, ext]])
            else:
                ops.append(['query', draw(queries(stems, exts))])
        elif kind == 'add':
            ops.append(['add', draw(st.sampled_from(stems)) + draw(st.sampled_from(('.comp', '.h')))])
        else:
            ops.append([kind, draw(registries(stems, exts, low=1, high=1, kinds=('memory', 'local')))[0]])
    return {'regs': regs, 'ops': ops}


@sub('lookup', lookups(), quick=4000, thorough=60000, rule='sequences of queries and added registries')
def lookup(case, rec):
    from mccode_antlr.reader import Reader
    hard = False
    with cgen.scratch() as folder, World(case['regs'], folder) as w:
        reader = Reader(registries=list(w.objects))
        order = w.ordered()
        for op, what in case['ops']:
            if op in ('prepend', 'append'):
                s = dict(what, id=len(w.specs), name=f'{what["name"]}-{len(w.specs)}', files=list(what['files']))
                w.specs.append(s)
                w.objects.append(w.make(s))
                if op == 'prepend':
                    reader.prepend_registry(w.objects[-1])
                    order.insert(0, s)
                else:
                    reader.append_registry(w.objects[-1])
                    order.append(s)
                rec.label(op)
                continue
            if op == 'add':
                s = next((s for s in w.specs if s['kind'] == 'memory'), None)
                if s is not None:
                    w.objects[s['id']].add(what, w.text(s['id'], what))
                    if what not in s['files']:
                        s['files'].append(what)
                continue
            name, ext = what
            where = f'{name!r} ext={ext} of {[(s["kind"], s["name"], s["files"]) for s in order]}'
            eq([r.name for r in reader.registries], [s['name'] for s in order], 'registries of the reader')
            s, m = expected(order, name, ext)
            for strict in (True, False):
                for kind in ('locate', 'contents', 'fullname'):
                    got, error = ask(getattr(reader, kind), name, ext=ext, strict=strict)
                    if s is None:
                        if error is None:
                            check(not strict, f'{kind} {where} gives {got}, which has another name')
                            if kind != 'contents':
                                check(Path(name).name in str(got), f'{kind} {where} gives {got}')
                        continue
                    # which of two files of a folder is meant is not guessed
                    eq(error is not None, s['kind'] == 'local' and len(m) > 1, f'{kind} {where} strict={strict}, {got}, fails with {error}:')
                    if error is not None:
                        continue
                    ok = [w.text(s['id'], f) for f in m] if kind == 'contents' else m
                    if kind == 'locate':
                        got = identify(w, s, got)
                    elif kind == 'fullname' and s['kind'] == 'local':
                        got = identify(w, s, got)
                    check((str(got) if kind != 'contents' else got) in ok, f'{kind} {where} strict={strict} gives {got!r}, not {ok}')
                if ext is None:
                    got = reader.known(name, strict=strict)
                    check(bool(got) if s is not None else not (got and strict), f'known {where} strict={strict} is {got}')
                    have = [x['name'] for x in order if matches(x, name)]
                    got = reader.contain(name, strict=strict)
                    check(got == have if strict else set(have) <= set(got), f'contain {where} strict={strict} is {got} not {have}')
            # a selection of the registries
            if s is not None:
                for x in order:
                    mine = matches(x, name, ext)
                    got, error = ask(reader.contents, name, which=x['name'], ext=ext, strict=True)
                    if error is None:
                        check(got in [w.text(x['id'], f) for f in mine], f'{where} of only {x["name"]} gives {got!r}')
                    else:
                        check(not mine or (x['kind'] == 'local' and len(mine) > 1), f'{where} of only {x["name"]} fails with {error}')
            rec.label('found' if s else 'missing', f'in{order.index(s)}' if s else 'nowhere')
            hard = hard or (s is not None and similar(w, name))
    rec.nontrivial(hard, key=case)


@sub('list', st.tuples(registries(low=1, high=2), st.lists(queries(), min_size=1, max_size=4)), quick=2000, thorough=20000,
     rule='listing and searching the file names of registries')
def listing(case, rec):
    regs, qs = case
    with cgen.scratch() as folder, World(regs, folder) as w:
        for s, reg in zip(w.specs, w.objects):
            names = lambda found: sorted(Path(x).name for x in found)
            eq(names(reg.filenames()), sorted(Path(f).name for f in s['files']), f'file names of {s}')
            for name, ext in qs:
                eq(names(reg.search(re.escape(name))) if '/' not in name else [], names(f for f in s['files'] if name in f) if '/' not in name else [], f'search for {name} in {s}')
                one = [f for f in s['files'] if f == name or (s['kind'] != 'memory' and f.endswith('/' + name))]
                if one or Path(name).suffix:
                    eq(bool(reg.unique(name)), len(one) == 1, f'unique {name} in {s}') if s['kind'] != 'remote' or Path(name).suffix else None
                m = matches(s, name, ext)
                if m and not (s['kind'] == 'local' and len(m) > 1):
                    eq(reg.contents(name, ext) in [w.text(s['id'], f) for f in m], True, f'contents of {name} {ext} in {s}')
            rec.label(s['kind'])
    rec.nontrivial(sum(len(s['files']) for s in regs) > 1, key=case)


COMP = ('Guide', 'Guide_g', 'My_Guide', 'uide', 'Gui', 'Guide2')


def comp_text(i, path):
    stem = Path(path).name.split('.')[0]
    if '.instr' in path:
        return f'DEFINE INSTRUMENT {stem}(double from{i}=0, double {marker(path)}=0)\nTRACE\nCOMPONENT a = Arm_x() AT (0,0,0) ABSOLUTE\nEND\n'
    if path.endswith('.h'):
        return f'/* {marker(path)}_from_{i} */\n'
    return f'DEFINE COMPONENT {stem} SETTING PARAMETERS (from{i}=1, {marker(path)}=2)\nTRACE %{{ %}}\nEND\n'


def marker(path):
    return 'at_' + re.sub(r'\W', '_', path)


@st.composite
def parsed(draw):
    return {'regs': draw(registries(COMP, ('.comp', '.comp', '.comp', '.comp', '.instr', '.comp.orig'))), 'name': draw(st.sampled_from(COMP)),
            'search': draw(st.lists(registries(COMP, ('.comp',), 1, 1, ('local',)).map(lambda r: r[0]), max_size=2)),
            'more': draw(st.lists(st.sampled_from(COMP), max_size=3)),
            'by': draw(st.sampled_from(('path', 'path', 'shell', 'shells'))), 'shell': draw(st.sampled_from((None, None, None, 'echo', 'lines', 'fails')))}


def read_type(fun):
    try:
        with cgen.quiet():
            return fun(), None
    except (RuntimeError, KeyError) as e:
        return None, e


@sub('parsed', parsed(), quick=2000, thorough=20000, rule='component types and instruments are read by name')
def parsed_(case, rec):
    from mccode_antlr.reader import Reader
    with cgen.scratch() as folder, World(case['regs'], folder, comp_text) as w:
        arm = lib.memory({'Arm_x': 'DEFINE COMPONENT Arm_x TRACE %{ %} END'}, 'arm')
        arm.priority = -1000
        reader = Reader(registries=list(w.objects) + [arm])
        order = w.ordered()
        first = {}
        for turn, name in enumerate([case['name']] + case['more']):
            s, m = expected(order, name, '.comp')
            comp, error = read_type(lambda: reader.get_component(name))
            where = f'component {name} of {[(x["kind"], x["name"], x["files"]) for x in order]}'
            if s is None:
                check(comp is None, f'{where} is found')
            elif comp is None or s['kind'] == 'local' and len(m) > 1:
                check(comp is None and s['kind'] == 'local' and len(m) > 1, f'{where}: {comp} {error}')
            else:
                pars = {p.name for p in comp.setting}
                check(f'from{s["id"]}' in pars and any(marker(f) in pars for f in m), f'{where} has the parameters {pars}')
                eq(comp.name, name, where)
                # the folder of the library in which it is, if it is in one
                folders = {f.split('/')[0] if '/' in f and s['kind'] == 'remote' else 'UNKNOWN' for f in m}
                check(comp.category in folders, f'{where}: category {comp.category} not {folders}')
                check(first.setdefault(name, comp) is comp, f'{where}: a second reading gives another type')
            s, m = expected(order, name + '.instr')
            instr, error = read_type(lambda: Reader(registries=list(w.objects) + [arm]).get_instrument(name))
            where = f'instrument {name} of {[(x["kind"], x["name"], x["files"]) for x in order]}'
            if s is None:
                check(instr is None, f'{where} is found')
            elif instr is None or s['kind'] == 'local' and len(m) > 1:
                check(instr is None and s['kind'] == 'local' and len(m) > 1, f'{where}: {instr and instr.source} {error}')
            else:
                pars = {p.name for p in instr.parameters}
                check(f'from{s["id"]}' in pars and any(marker(f) in pars for f in m), f'{where} has the parameters {pars}')
        # a registry found by SEARCH is before all others
        specs = []
        for x in case['search']:
            x = dict(x, id=len(w.specs))
            w.specs.append(x)
            w.objects.append(w.make(x))
            specs.append(x)
        name = case['name']
        folders = [f'{w.folder}/r{x["id"]}/lib' for x in specs]
        if case['by'] == 'path':
            search = [f'SEARCH "{x}"' for x in folders]
        elif case['by'] == 'shell':
            # what a command prints, one folder a line
            search = [f'SEARCH SHELL "echo {x}"' for x in folders]
        else:
            search = ['SEARCH SHELL "' + '; echo; '.join(f"printf '%s\\n' {x}" for x in folders) + '"'] if folders else []
        made = w.folder / 'made'
        shell = {None: '', 'echo': f'SHELL "echo ran > {made}"', 'lines': f'SHELL "printf \'a b\' > {made}; cat {made} >> {made}2; test -s {made}2"', 'fails': f'SHELL "echo ran > {made}; false"'}[case['shell']]
        text = f'DEFINE INSTRUMENT t()\n{shell}\nTRACE\n' + ''.join(x + '\n' for x in search) + f'COMPONENT a = {name}() AT (0,0,0) ABSOLUTE\nEND\n'
        (w.folder / 'searching.instr').write_text(text)
        try:
            instr, error = read_type(lambda: Reader(registries=w.objects[:len(case['regs'])] + [arm]).get_instrument(w.folder / 'searching.instr'))
            failed = False
        except subprocess.CalledProcessError:
            failed = True
        eq(failed, case['shell'] == 'fails', f'{text} fails because of its command:')
        eq(made.read_text() if made.exists() else None, {None: None, 'lines': 'a b'}.get(case['shell'], 'ran\n'), f'{text} what the command wrote')
        rec.label('shell' if case['shell'] else 'no shell')
        if failed:
            return
        order = specs[::-1] + order
        s, m = expected(order, name, '.comp')
        where = f'{text} with {[(x["kind"], x["name"], x["files"]) for x in order]}'
        if s is None:
            check(instr is None, f'{where} is found')
        elif instr is None or s['kind'] == 'local' and len(m) > 1:
            check(instr is None and s['kind'] == 'local' and len(m) > 1, f'{where}: {instr and instr.source} {error}')
        else:
            pars = {p.name for p in instr.components[0].type.setting}
            check(f'from{s["id"]}' in pars and any(marker(f) in pars for f in m), f'{where} has the parameters {pars}')
            eq([r.name for r in instr.registries][-1], 'arm', 'last registry of the instrument')
        rec.label('search' if specs else 'nosearch', 'found' if s else 'missing')
        rec.nontrivial(s is not None and similar(w, name), key=case)


FOLDERS = ('A', 'B', 'B/C', 'AB')
SPECS = ('{path}', '{name} {path}', '{name} {path}/', '{path}/../{last}', '{relative}', '{name} {url} {list}', '{name} {url} {list}', '{path}/nowhere', '{name} {path}/nowhere', '{name} {url} {path}/nowhere.txt')


@st.composite
def specified(draw):
    names = st.sampled_from(('one', 'two', 'my-lib'))
    return {'first': draw(st.lists(st.sampled_from(FOLDERS), max_size=2, unique=True)),
            'specs': draw(st.lists(st.tuples(st.sampled_from(SPECS), names, st.sampled_from(FOLDERS)).map(list), min_size=1, max_size=5))}


@sub('specified', specified(), quick=400, thorough=8000, rule='registries stated in the forms which SEARCH accepts, also repeatedly')
def specified_(case, rec):
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    with cgen.scratch() as folder:
        folder = Path(folder).resolve()
        for f in FOLDERS:
            (folder / f).mkdir(parents=True)
        for f in FOLDERS:
            (folder / f / 'T.comp').write_text(f'DEFINE COMPONENT T SETTING PARAMETERS (from_{f.replace("/", "_")}=1) TRACE %{{ %}} END')
            (folder / f / 'list.txt').write_text(f'only_{f.replace("/", "_")}.comp md5:0\nT.comp md5:0\n')
        arm = lib.memory({'Arm': 'DEFINE COMPONENT Arm TRACE %{ %} END'}, 'arm')
        arm.priority = -1000
        reader = Reader(registries=[*(LocalRegistry(f'own-{f}', str(folder / f), priority=10 - i) for i, f in enumerate(case['first'])), arm])
        want = [[f'own-{f}', f] for f in case['first']] + [['arm', None]]
        again = wrong = False
        for form, name, f in case['specs']:
            path = folder / f
            url = f'http://127.0.0.1:9/{f}/'
            spec = form.format(path=path, name=name, last=path.name, relative=os.path.relpath(path), url=url, list=path / 'list.txt')
            where = f'SEARCH of {spec} in {want}'
            with cgen.quiet():
                got, error = ask(reader.handle_search_keyword, spec)
            at = url if 'url' in form else f
            known = 'url' in form and any(x[1] == at for x in want)
            bad = 'nowhere' in form and not known
            check(bad == (error is not None), f'{where}: {error}')
            if bad:
                wrong = True
            elif any(x[1] == at for x in want):
                again = True
            else:
                want.insert(0, [name if '{name}' in form else spec, at])
            eq([[r.name, None if r is arm else str(r.root.relative_to(folder)) if r.root else r.pooch.base_url] for r in reader.registries], want, where)
            for r, (n, at) in zip(reader.registries, want):
                if r is not arm and r.pooch is not None:
                    eq(sorted(r.filenames()), sorted([f'only_{at[19:-1].replace("/", "_")}.comp', 'T.comp']), f'{where}: files of {n}')
        local = next((at for n, at in want if at is not None), None)
        if local is not None and ':' not in local:
            comp, error = read_type(lambda: reader.get_component('T'))
            eq([p.name for p in comp.setting] if comp else error, [f'from_{local.replace("/", "_")}'], f'component of {want}')
        rec.label(*(x for x, y in (('again', again), ('wrong', wrong), ('remote', any(':' in (x[1] or '') for x in want))) if y))
    rec.nontrivial(again or len(want) > 2, key=case)


@st.composite
def includes(draw):
    return {'regs': draw(registries(('Guide-lib', 'Guide-lib', 'My_Guide-lib', 'Guide-lib2', 'de-lib'), ('.h', '.h', '.c', '.c', '.h.in', '.h.orig'))),
            'name': draw(st.sampled_from(('Guide-lib', 'Guide-lib', 'Guide-lib', 'My_Guide-lib', 'Guide-lib2', 'share/Guide-lib'))),
            'search': draw(registries(('Guide-lib', 'Guide-lib', 'My_Guide-lib'), ('.h', '.c', '.h.in'), low=0, high=2, kinds=('local',))), 'way': draw(st.sampled_from(('reader', 'loader')))}


def include_text(i, path):
    return f'/* <<{i}:{path}>> */\n'


@sub('include', includes(), quick=1500, thorough=10000, rule='C files included in generated code, and GETPATH')
def include(case, rec):
    with cgen.scratch() as folder, World(case['regs'], folder, include_text) as w:
        name = case['name']
        order = w.ordered()
        arm = lib.memory({'Arm_x': f'DEFINE COMPONENT Arm_x SHARE %{{\n%include "{name}"\n%}} TRACE %{{ %}} END'}, 'arm')
        arm.priority = -1000
        searched = []
        for x in case.get('search', ()):
            x = dict(x, id=len(w.specs))
            w.specs.append(x)
            w.make(x)
            searched.append(f'SEARCH "{w.folder}/r{x["id"]}/lib"')
            order.insert(0, x)
        text = '\n'.join(['DEFINE INSTRUMENT t()', f'DEPENDENCY "-I GETPATH({name}.h)"', 'TRACE', *searched, 'COMPONENT a = Arm_x() AT (0,0,0) ABSOLUTE', 'END'])
        (w.folder / 'including.instr').write_text(text)
        from mccode_antlr.loader.loader import parse_mccode_instr
        from mccode_antlr.reader import Reader
        with cgen.quiet():
            if case.get('way') == 'loader':
                instr = parse_mccode_instr(text, list(w.objects) + [arm])
            else:
                instr = Reader(registries=list(w.objects) + [arm]).get_instrument(w.folder / 'including.instr')
        where = f'{name}.h of {[(x["kind"], x["name"], x["files"]) for x in order]}'
        s, m = expected(order, name + '.h')
        code, error = read_type(lambda: cgen.source(instr))
        got = re.findall(r'<<(\d+:[^>]*)>>', code or '')
        if s is None:
            check(error is not None, f'{where} is included as {got}')
        elif code is None:
            s2, m2 = expected(order, name + '.c')
            unclear = s['kind'] == 'local' and len(m) > 1 or s2 is not None and s2['kind'] == 'local' and len(m2) > 1
            check(unclear or s2 is None, f'{where} is not included: {error}')
        if s is not None and code is not None:
            heads = [g for g in got if not g.endswith('.c')]
            check(len(heads) == 1 and heads[0] in [f'{s["id"]}:{f}' for f in m], f'{where} is included as {heads}')
        flags, error = read_type(lambda: instr.decoded_flags())
        if s is not None and flags is not None and s['kind'] != 'memory':
            path = flags[0].split('-I ')[1] if len(flags) == 1 else flags[1]
            check(Path(path).name in [Path(f).name for f in m] and Path(path).read_text() in [include_text(s['id'], f) for f in m], f'GETPATH of {where} is {flags}')
        rec.label('found' if s else 'missing', case.get('way', 'reader'), 'search' if searched else 'nosearch')
        rec.nontrivial(s is not None and similar(w, name), key=case)


# ---- files which are not yet in the cache

class Server:
    """One server per process, of whatever is in its table"""
    port = None
    table = {}
    asked = []

    @classmethod
    def start(cls):
        if cls.port is not None:
            return
        import threading
        from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

        class Handler(BaseHTTPRequestHandler):
            def do_GET(self):
                cls.asked.append(self.path)
                body = cls.table.get(self.path)
                self.send_response(404 if body is None else 200)
                self.send_header('Content-Length', str(len(body or b'')))
                self.end_headers()
                self.wfile.write(body or b'')

            def log_message(self, *a):
                pass
        server = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        cls.port = server.server_address[1]
        threading.Thread(target=server.serve_forever, daemon=True).start()


@st.composite
def downloads(draw):
    names = draw(files('remote', STEMS[:8], EXTS))
    return {'files': names, 'github': draw(st.booleans()), 'tag': draw(st.sampled_from(('v1.0', 'v1.2.3'))),
            'bad': draw(st.sampled_from((None,) * 3 + tuple(names))) if names else None, 'order': draw(st.permutations(names)) if names else []}


@sub('download', downloads(), quick=300, thorough=4000, rule='files and file lists from a local server')
def download(case, rec):
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import GitHubRegistry, ModuleRemoteRegistry
    Server.start()
    World.count += 1
    name = f'verif-g01-{os.getpid()}-{World.count}'
    text = lambda f: f'the text of {f}\n{name}\n'
    digest = {f: hashlib.sha256(text(f).encode()).hexdigest() for f in case['files']}
    base = f'/{name}/raw/{case["tag"]}/' if case['github'] else f'/{name}/'
    Server.table.clear()
    Server.asked.clear()
    for f in case['files']:
        Server.table[base + f] = (text(f) if f != case['bad'] else 'something else').encode()
    Server.table[base + f'{name}-registry.txt'] = ''.join(f'{f} {d}\n' for f, d in digest.items()).encode()
    listing = ''.join(f'{f} {d}\n' for f, d in digest.items())
    root = None
    no_proxy = os.environ.get('no_proxy')
    os.environ['no_proxy'] = '127.0.0.1'
    try:
        with cgen.scratch() as folder:
            (Path(folder) / 'list.txt').write_text(listing)

            def make():
                with cgen.quiet():
                    if case['github']:
                        return GitHubRegistry(name, f'http://127.0.0.1:{Server.port}/{name}', case['tag'])
                    return ModuleRemoteRegistry(name, f'http://127.0.0.1:{Server.port}/{name}/', filename=Path(folder) / 'list.txt', version='v1')
            for turn in range(2):
                reg = make()
                root = Path(reg.pooch.abspath)
                eq(sorted(reg.filenames()), sorted(case['files']), f'files of the list {listing}')
                reader = Reader(registries=[reg])
                for f in case['order']:
                    m = matches({'kind': 'remote', 'files': case['files']}, f)
                    if f == case['bad']:
                        try:
                            got = reader.contents(f, strict=True)
                        except Exception:  # the library for downloads reports a wrong checksum
                            check(not (root / f).exists(), f'{f} is kept though its checksum is wrong')
                        else:
                            check(False, f'the wrong text {got!r} of {f} is accepted')
                        continue
                    with cgen.quiet():
                        eq(reader.contents(f, strict=True), text(m[0]), f'contents of {f} in {listing}')
                good = [a for a in Server.asked if a != base + str(case['bad'])]
                check(len(good) == len(set(good)), f'files are downloaded repeatedly: {good}')
                if turn == 0 and not case['github']:
                    eq(sorted(good), sorted(base + f for f in case['files'] if f != case['bad']), 'downloaded files')
    finally:
        if no_proxy is None:
            del os.environ['no_proxy']
        else:
            os.environ['no_proxy'] = no_proxy
        if root is not None and 'verif-g01-' in str(root):
            shutil.rmtree(root.parent if root.name.startswith('v') else root, ignore_errors=True)
    rec.label('github' if case['github'] else 'module', 'damaged' if case['bad'] else 'intact')
    rec.nontrivial(len(case['files']) > 1, key=case)


# ---- the functions which add the library of their flavour

LOADERS = ['load_mcstas_instr', 'load_mcxtrace_instr', 'parse_mcstas_instr', 'parse_mcxtrace_instr', 'load_mccode_instr', 'Assembler']
GIVEN = [None, [], ['one'], ['one', 'two'], ['two', 'one'], ['mcstas'], ['mcxtrace'], ['mcstas', 'one'], ['mcxtrace', 'one', 'two'], ['mcstas', 'mcxtrace'], ['mcxtrace', 'mcstas']]

LOADING = '''
import json, sys
from pathlib import Path
sys.path.insert(0, sys.argv[1])
from mccode_antlr import loader
from mccode_antlr.reader import Reader, MCSTAS_REGISTRY, MCXTRACE_REGISTRY
from mccode_antlr.reader.registry import LocalRegistry
from mccode_antlr.assembler import Assembler
out = []
for function, given, priority, path in json.load(open('case.json')):
    have = {'mcstas': MCSTAS_REGISTRY, 'mcxtrace': MCXTRACE_REGISTRY}
    for n in ('one', 'two'):
        have[n] = LocalRegistry(n, n, **({} if priority is None else {'priority': priority}))
    registries = None if given is None else [have[n] for n in given]
    passed = None if given is None else list(registries)
    try:
        if function == 'Assembler':
            instr = Assembler('t', registries=registries)
            instr.component('a', 'Thing', at=(0, 0, 0))
            instr = instr.instrument
        elif function == 'load_mccode_instr':
            from mccode_antlr.loader.loader import load_mccode_instr
            instr = load_mccode_instr(path, registries)
        elif function.startswith('parse'):
            instr = getattr(loader, function)(Path(path).read_text(), registries)
        else:
            instr = getattr(loader, function)(path, registries)
        got = [[c.type.get_parameter('place').value.value, c.type.category] for c in instr.components]
        out.append([got, [r.name for r in instr.registries], [str(Path(b.filename).absolute()) for b in instr.declare], passed == registries, None])
    except Exception as e:
        out.append([None, None, None, passed == registries, repr(e)])
json.dump(out, open('out.json', 'w'))
'''

LIBRARIES = ['mcstas', 'mcxtrace', 'one', 'two']


@st.composite
def loads(draw):
    where = {k: draw(st.sampled_from(['optics/', '', 'share/deep/'])) for k in draw(st.lists(st.sampled_from(LIBRARIES), unique=True, min_size=draw(st.sampled_from([1, 2, 3])), max_size=4))}
    calls = [[draw(st.sampled_from(LOADERS)), draw(st.sampled_from(GIVEN)), draw(st.sampled_from([None, None, 5, -10, -20])), draw(st.sampled_from(['main.instr', 'sub/main.instr', 'sub/../main.instr']))]
             for _ in range(draw(st.integers(4, 12)))]
    # without any registry there is nothing to search, and the Reader then uses McStas
    return dict(where=where, calls=[[f, g or ['one'] if f == 'load_mccode_instr' else g, p, x] for f, g, p, x in calls])


@sub('loader', loads(), quick=25, thorough=600, rule='functions which load an instrument of one flavour, with and without registries that have the same component')
def loader(case, rec):
    import hashlib
    import json
    import os
    import subprocess
    import sys
    from vlib import boot
    with cgen.scratch() as d:
        env = boot.make_offline(Path(d, 'offline'))
        cache = Path(env['XDG_CACHE_HOME'], 'mccode_antlr')
        cwd = Path(d, 'work')
        for n in ('one', 'two', 'sub'):
            (cwd / n).mkdir(parents=True)
        for n in LIBRARIES:
            root = cwd / n if n in ('one', 'two') else cache / n / 'v0.0.0'
            listing = ''
            if n in case['where']:
                name = f'{case["where"][n]}Thing.comp'
                text = f'DEFINE COMPONENT Thing SETTING PARAMETERS (int place={LIBRARIES.index(n)}) TRACE %{{ %}} END'.encode()
                (root / name).parent.mkdir(parents=True, exist_ok=True)
                (root / name).write_bytes(text)
                listing = f'{name} {hashlib.sha256(text).hexdigest()}\n'
            if root != cwd / n:
                (root / f'{n}-registry.txt').write_text(listing)
        main = 'DEFINE INSTRUMENT t() DECLARE %{ int d; %} TRACE COMPONENT a = Thing() AT (0,0,0) ABSOLUTE END'
        (cwd / 'main.instr').write_text(main)
        (cwd / 'sub' / 'main.instr').write_text(main)
        (cwd / 'case.json').write_text(json.dumps(case['calls']))
        r = subprocess.run([sys.executable, '-c', LOADING, str(boot.REPO / 'src')], cwd=cwd, capture_output=True, text=True, timeout=120, env=dict(os.environ, **env))
        if r.returncode:
            raise engine.Violation(f'{case["calls"]}: {r.stderr[-1500:]}')
        for (function, given, priority, path), (got, names, files, same, error) in zip(case['calls'], json.loads((cwd / 'out.json').read_text())):
            order = list(given or [])
            flavor = 'mcxtrace' if 'mcxtrace' in function else 'mcstas' if function != 'load_mccode_instr' else None
            if flavor and flavor not in order and (function != 'Assembler' or not order):
                order.append(flavor)
            local = 10 if priority is None else priority
            order.sort(key=lambda n: local if n in ('one', 'two') else -10, reverse=True)
            what = f'{function} with {given} of priority {priority}, and the component in {list(case["where"])}:'
            check(same, f'{what} the list of registries is changed')
            winner = next((n for n in order if n in case['where']), None)
            if winner is None:
                check(got is None, f'{what} it is found in {got}')
                continue
            check(error is None, f'{what} {error}')
            eq(LIBRARIES[got[0][0]], winner, what)
            if winner in ('mcstas', 'mcxtrace'):
                eq(got[0][1], case['where'][winner].split('/')[0] or 'UNKNOWN', f'{what} category')
            eq([n for n in names if n in LIBRARIES], order, f'{what} registries of the instrument')
            if function.startswith('load'):
                eq([os.path.realpath(f) for f in files], [os.path.realpath(cwd / path)], f'{what} file of the instrument')
            rec.label(function, winner)
    rec.nontrivial(len(case['where']) > 1, key=case)
