"""M01: configuration and cache commands act on exactly what they are asked to."""
import contextlib
import io
import os
import re
import subprocess
import sys
from pathlib import Path

from hypothesis import strategies as st

from vlib import boot, cgen, engine
from vlib.engine import check, eq

SUBS, sub = engine.registry()
RULE = 'non-trivial: at least two values are changed and one of them is looked at, or a cache is removed from among others'
ASSUMPTIONS = ['only single values are set and unset, never a group of values which the defaults have; environment variables are before the file of the user',
               'every command is a new run: the configuration module is loaded again; (processes) uses separate processes',
               'names which are no names of caches can be refused in any way, as long as nothing is removed']

LEAVES = ['cc', 'acc', 'ext', 'flags.gsl', 'flags.cc', 'flags.xrl', 'mpi.run', 'mpi.cc', 'mcxtrace.name', 'mcstas.particle', 'flags.mine', 'verif', 'verif_new.one', 'verif_new.deep.two', 'verif_new.deep.six', 'verif_new.deep.er.one', 'verif_new.deep.er.two']
VALUES = ['value', '', '4', 'yes', 'null', '~', '- a', 'a: b', '{x}', '#c', '%d', '@x', '*x', '&y', '!z', 'é', ' lead', 'trail ', '"q"', "it's", 'a\\b', '$HOME', '1e5', '0x10', '2020-01-01', 'x\ny', 'a\tb',
          '-lgsl', '-la -lb', '=', '.5', 'true', '[1, 2]', '|', '>', '?', 'x:', '12:30:45']
ENVIRONMENT = {'MCCODEANTLR_FLAGS__GSL': ('flags.gsl', '-lenv'), 'MCCODEANTLR_VERIF': ('verif', 'env'), 'CC': ('cc', 'envcc'), 'MCCODEANTLR_MPI__NODES': ('mpi.nodes', 'some')}
REGEX = ['flags', 'mcstas', 'mc', 'mcxtrace', 'absent', 'verif', 'verif_new.deep', '^fl', 'new.*two', r'\.cc', 'p.er.', '[xz]rl']


def merge(low, high):
    out = dict(low)
    for k, v in high.items():
        out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
    return out


def put(tree, key, value):
    *parents, last = key.split('.')
    for p in parents:
        tree = tree.setdefault(p, {})
    tree[last] = value


def drop(tree, key):
    head, _, rest = key.partition('.')
    if rest:
        if head in tree:
            drop(tree[head], rest)
            if not tree[head]:
                del tree[head]
    else:
        tree.pop(head, None)


def find(tree, key):
    for level in key.split('.'):
        if not isinstance(tree, dict) or level not in tree:
            return None
        tree = tree[level]
    return tree


def leaves(tree, path=()):
    out = {}
    for k, v in tree.items():
        out.update(leaves(v, (*path, k)) if isinstance(v, dict) else {'.'.join((*path, k)): v})
    return out


def defaults():
    import yaml
    folder = boot.REPO / 'src/mccode_antlr/config'
    return merge(yaml.safe_load((folder / 'config_default.yaml').read_text()), yaml.safe_load((folder / 'platforms.yaml').read_text())['Linux'])


class World:
    """A home without configuration or caches, and a new run for every command"""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.scratch = cgen.scratch()
        self.root = Path(self.scratch.__enter__())
        self.environ = dict(os.environ)
        for k in list(os.environ):
            if k.startswith('MCCODEANTLR') or k == 'CC':
                del os.environ[k]
        os.environ.update(HOME=str(self.root / 'home'), XDG_CONFIG_HOME=str(self.root / 'xdg'), XDG_CONFIG_DIRS=str(self.root / 'etc'), XDG_CACHE_HOME=str(self.root / 'cache'))
        self.environment(self.env)
        (self.root / 'home').mkdir()
        return self

    def __exit__(self, *a):
        for k in set(os.environ) - set(self.environ):
            del os.environ[k]
        os.environ.update(self.environ)
        reload()
        self.scratch.__exit__(*a)

    def environment(self, names):
        for k in ENVIRONMENT:
            os.environ.pop(k, None)
        os.environ.update({k: ENVIRONMENT[k][1] for k in names})

    def run(self, args, answer=None):
        """what the command prints, and the exception with which it ends"""
        import builtins
        from mccode_antlr.cli import management
        reload()
        argv, asked = sys.argv, builtins.input
        sys.argv = ['mccode-antlr', *args]
        builtins.input = lambda *_: answer
        out, error = io.StringIO(), None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                management.mccode_management()
        except (Exception, SystemExit) as e:
            error = e
        finally:
            sys.argv, builtins.input = argv, asked
        return out.getvalue(), error

    def process(self, args, answer=None):
        env = dict(os.environ, PYTHONPATH=str(boot.REPO / 'src'))
        r = subprocess.run([sys.executable, '-c', 'from mccode_antlr.cli.management import mccode_management as m; m()', *args], env=env, input=answer or '', capture_output=True, text=True, cwd=self.root)
        return r.stdout, r.stderr if r.returncode else None


def reload():
    import importlib
    import mccode_antlr.config
    importlib.reload(mccode_antlr.config)


key = st.one_of(st.sampled_from(LEAVES), st.sampled_from([x for x in LEAVES if x.startswith('verif')]))
operation = st.one_of(st.tuples(st.just('set'), key, st.sampled_from(VALUES)), st.tuples(st.just('set'), key, st.sampled_from(VALUES)), st.tuples(st.just('unset'), key),
                      st.tuples(st.just('get'), st.sampled_from(LEAVES + ['flags', 'mpi', 'verif_new', 'verif_new.deep', 'verif_new.deep.er', 'flags.none', 'cc.x', 'cc.c', 'ext.o', 'nothing', None])),
                      st.tuples(st.just('list'), st.sampled_from([None, None, *REGEX])), st.tuples(st.just('save'), st.sampled_from((None, 'folder'))),
                      st.tuples(st.just('env'), st.lists(st.sampled_from(sorted(ENVIRONMENT)), unique=True, max_size=2))).map(list)


def read(text, what):
    import yaml
    try:
        return yaml.safe_load(text)
    except yaml.YAMLError as e:
        raise engine.Violation(f'{what} prints {text!r}, which is not YAML: {e}')


def same(got, expected, what):
    """values in the file are text, others can be numbers"""
    check(isinstance(got, dict), f'{what} is {got!r}')
    a, b = leaves(got), leaves(expected)
    eq(sorted(a), sorted(b), f'{what}: keys')
    for k in b:
        eq(a[k], b[k], f'{what}: value of {k}')


def configuration(case, rec, way):
    env, ops = case
    changes, looks = set(), set()
    with World(env) as w:
        run = getattr(w, way)
        user, over = {}, {}
        for k in env:
            put(over, *ENVIRONMENT[k])
        for i, (op, *args) in enumerate(ops):
            what = f'{op} {args} after {ops[:i]} with {env}'
            if op == 'env':
                # later runs are in another environment
                w.environment(args[0])
                over = {}
                for k in args[0]:
                    put(over, *ENVIRONMENT[k])
                continue
            effective = merge(merge(defaults(), user), over)
            if op == 'set':
                out, error = run(['config', 'set', *(['--'] if args[1].startswith('-') else []), *args])
                check(error is None, f'{what}: {error}')
                put(user, *args)
                changes.add(args[0])
            elif op == 'unset':
                out, error = run(['config', 'unset', *args])
                check(error is None, f'{what}: {error}')
                if find(user, args[0]) is not None:
                    changes.add(args[0])
                drop(user, args[0])
            elif op == 'get':
                out, error = run(['config', 'get', *[a for a in args if a]])
                check(error is None, f'{what}: {error}')
                expected = effective if args[0] is None else find(effective, args[0])
                if expected is None:
                    eq(out.strip(), '', what)
                else:
                    got = read(out, what)
                    if args[0]:
                        eq(list(got), [args[0]], f'{what}: key')
                        got = got[args[0]]
                    if isinstance(expected, dict):
                        same(got, expected, what)
                    else:
                        eq(got, expected, what)
                looks.add(args[0])
            elif op == 'list':
                out, error = run(['config', 'list', *[a for a in args if a]])
                check(error is None, f'{what}: {error}')
                got = read(out, what)
                if args[0] is None:
                    same(got, effective, what)
                else:
                    # a group which is selected has all of its values
                    levels = lambda k: ['.'.join(k.split('.')[:n + 1]) for n in range(k.count('.') + 1)]
                    expected = {k: v for k, v in leaves(effective).items() if any(re.search(args[0], x) for x in levels(k))}
                    eq(leaves(got), expected, what)
                looks.add('list')
            elif op == 'save':
                if args[0]:
                    (w.root / args[0]).mkdir(exist_ok=True)
                out, error = run(['config', 'save', *[str(w.root / a) for a in args if a]])
                check(error is None, f'{what}: {error}')
                if args[0]:
                    same(read((w.root / args[0] / 'config.yaml').read_text(), what), effective, what)
                else:
                    user = merge({}, effective)
                    changes.add('all')
        # what a program then uses
        out, error = run(['config', 'list'])
        same(read(out, 'config list'), merge(merge(defaults(), user), over), f'configuration after {ops} with {env}')
        if way == 'run':
            reload()
            from mccode_antlr.config import config
            for k, v in leaves(merge(merge(defaults(), user), over)).items():
                c = config
                for level in k.split('.'):
                    c = c[level]
                eq(c.get(), v, f'value of {k} used after {ops} with {env}')
    rec.label(*{o[0] for o in ops}, *('env' for _ in env[:1]))
    rec.nontrivial(len(changes) > 1 and len(looks) > 0, key=case)


@st.composite
def histories(draw, high, env):
    return [draw(st.lists(st.sampled_from(sorted(ENVIRONMENT)), unique=True, max_size=env)), [draw(operation) for _ in range(draw(st.integers(2, high)))]]


@sub('config', histories(12, 2), quick=600, thorough=10000, rule='histories of configuration commands')
def config_(case, rec):
    configuration(case, rec, 'run')


@sub('processes', histories(8, 1), quick=24, thorough=300,
     rule='histories of configuration commands, each in a new process')
def processes(case, rec):
    configuration(case, rec, 'process')


# ---------------------------------------------------------------- the cache
NAMES = ['mcstas', 'libc', 'mccode_antlr-x', 'a b', 'x']
VERSIONS = ['v1', 'v1.2', 'main', 'v 3', 'mcstas']
WRONG = ['..', '', '.', '../other', '../..', 'mcstas/v1', 'mcstas/..', '', '/outside', '/cache', 'nope', 'mc', 'mcsta?', '*', './x', 'v1']


@st.composite
def caches(draw):
    world = {n: draw(st.lists(st.sampled_from(VERSIONS), unique=True, min_size=draw(st.integers(0, 2)), max_size=3)) for n in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=draw(st.integers(0, 3)), max_size=4))}
    ops = []
    for _ in range(draw(st.integers(3, 9))):
        kind = draw(st.sampled_from(('remove', 'remove', 'remove', 'list')))
        pool = draw(st.sampled_from((list(world) or NAMES, list(world) or NAMES, list(world) or NAMES, NAMES, WRONG, WRONG, [None])))
        name = draw(st.sampled_from(pool))
        if kind == 'list':
            ops.append([kind, name, draw(st.booleans())])
            continue
        pool = draw(st.sampled_from((world.get(name) or VERSIONS, world.get(name) or VERSIONS, [None], VERSIONS, WRONG, WRONG)))
        version = draw(st.sampled_from(pool)) if name is not None else None
        ops.append([kind, name, version, draw(st.sampled_from(('force', 'force', 'force', 'y', 'yes', 'YES', 'n', '', 'no', 'yess')))])
    return {'world': world, 'links': draw(st.booleans()), 'exists': draw(st.integers(0, 9)) < 9 or bool(world), 'ops': ops}


def tree(root):
    return sorted(p.relative_to(root).as_posix() for p in root.rglob('*'))


@sub('cache', caches(), quick=1000, thorough=10000, rule='histories of cache commands')
def cache(case, rec):
    import shutil
    removed = 0
    with World([]) as w:
        top = w.root / 'cache' / 'mccode_antlr'
        if case['exists']:
            top.mkdir(parents=True)
            (top / 'a file').write_text('')
        for d in ('other', 'outside', 'cache/other', 'outside/v1', 'home/x'):
            (w.root / d).mkdir(parents=True, exist_ok=True)
            (w.root / d / 'keep').write_text('')
        for n, versions in case['world'].items():
            for v in versions:
                (top / n / v / 'folder').mkdir(parents=True)
                (top / n / v / 'folder' / 'file.comp').write_text('')
                if case['links']:
                    (top / n / v / 'link').symlink_to(w.root / 'outside')
            (top / n).mkdir(exist_ok=True)
        real = shutil.rmtree
        attempts = []

        def rmtree(path, *a, **k):
            # nothing but the scratch folder is at risk
            attempts.append(str(path))
            check((w.root / 'cache') in Path(os.path.abspath(path)).parents, f'{path} would be removed')
            real(path, *a, **k)
        shutil.rmtree = rmtree
        old = os.getcwd()
        os.chdir(w.root / 'outside')
        try:
            for i, (op, name, *args) in enumerate(case['ops']):
                what = f'{op} {name!r} {args} after {case["ops"][:i]} of {case["world"]}'
                full = None if name is None else str(w.root) + name if name.startswith('/') else name
                before = tree(w.root)
                present = {p.name for p in top.iterdir() if p.is_dir()} if top.exists() else set()
                if op == 'list':
                    out, error = w.run(['cache', 'list', *([full] if full is not None else []), *(['-l'] if args[0] else [])])
                    eq(tree(w.root), before, f'{what}: files afterwards')
                    if name is None or name in present:
                        check(error is None, f'{what}: {error!r}')
                        folder = top if name is None else top / name
                        names = sorted(p.name for p in folder.iterdir() if p.is_dir()) if folder.exists() else []
                        first, *rest = out.split('\n')
                        check(first.startswith(f'{len(names)} known cache'), f'{what} prints {out!r}')
                        eq([l[2:] for l in rest if l], [str(folder / n) if args[0] else n for n in names], f'{what}: names')
                    else:
                        check(error is not None or out.startswith('0 '), f'{what} prints {out!r}')
                    continue
                version, how = args
                words = [x if x is None or not x.startswith('/') else str(w.root) + x for x in (name, version)]
                goes = how in ('force', 'y', 'yes', 'YES')
                if name is None:
                    there, target = top.exists(), 'cache/mccode_antlr'
                elif version is None:
                    there, target = name in present, f'cache/mccode_antlr/{name}'
                else:
                    there = name in present and version in {p.name for p in (top / name).iterdir()}
                    target = f'cache/mccode_antlr/{name}/{version}'
                out, error = w.run(['cache', 'remove', *[x for x in words if x is not None], *(['-f'] if how == 'force' else [])], how)
                after = tree(w.root)
                if there and goes:
                    check(error is None, f'{what}: {error!r}')
                    eq([p for p in after if p != target], [p for p in before if p != target and not p.startswith(target + '/')], f'{what}: files afterwards')
                    check(name is None or target not in after, f'{what}: it is still there')
                    removed += len(before) > len(after) and len(present) > 1
                else:
                    eq(after, before, f'{what}: files afterwards')
        finally:
            shutil.rmtree = real
            os.chdir(old)
    rec.label('removed' if removed else 'kept', *{o[0] for o in case['ops']})
    rec.nontrivial(removed > 0, key=case)
