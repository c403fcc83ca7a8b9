"""Offline environment for importing /repo's mccode_antlr, and the paths that every check needs.

The package asks a git remote for a tag and downloads file lists while it is imported.  As in
/opt/vp/env.sh, the project's own configuration variables point it at an empty local git
repository and empty cached lists; everything lives in one scratch directory.
"""
import os
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
# Development only: check a scratch copy of the repository. The registered commands leave it unset.
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
VENV_PYTHON = '/opt/venv/bin/python'
HYPOTHESIS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
NAMES = ('mcstas', 'mcxtrace', 'libc')


def make_offline(root: Path) -> dict:
    """Fill *root* and return the environment variables to set."""
    root = Path(root)
    cache, cfg, git = root / 'cache', root / 'config', root / 'empty.git'
    cfg.mkdir(parents=True, exist_ok=True)
    (root / 'home').mkdir(exist_ok=True)
    env = dict(os.environ, GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL='/dev/null', GIT_TERMINAL_PROMPT='0')

    def g(*a, **k):
        return subprocess.run(['git', *a], check=True, capture_output=True, text=True, env=env, **k).stdout.strip()
    g('init', '-q', '--bare', '-b', 'main', str(git))
    tree = g('-C', str(git), 'mktree', input='')
    commit = g('-C', str(git), '-c', 'user.name=o', '-c', 'user.email=o@localhost', 'commit-tree', tree, '-m', 'e')
    g('-C', str(git), 'tag', 'v0.0.0', commit)
    for n in NAMES:
        d = cache / 'mccode_antlr' / n / 'v0.0.0'
        d.mkdir(parents=True)
        (d / f'{n}-registry.txt').write_text('')
    return {
        'XDG_CACHE_HOME': str(cache), 'XDG_CONFIG_HOME': str(cfg), 'HOME': str(root / 'home'),
        'MCCODEANTLR_MCCODE_POOCH__REGISTRY': str(git), 'MCCODEANTLR_MCCODE_POOCH__TAG': 'v0.0.0',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'GIT_TERMINAL_PROMPT': '0',
        'GIT_CONFIG_NOSYSTEM': '1', 'GIT_CONFIG_GLOBAL': '/dev/null', 'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
        'VERIF_OFFLINE_ROOT': str(root),
    }


def setup_paths():
    """In a worker: import mccode_antlr from REPO and hypothesis from the tool environment."""
    src = str(REPO / 'src')
    sys.path[:] = [src] + [p for p in sys.path if p not in (src, HYPOTHESIS)] + [HYPOTHESIS]
    try:
        from loguru import logger
        logger.remove()
    except ImportError:
        pass
    import mccode_antlr
    got = Path(mccode_antlr.__file__).resolve()
    if not str(got).startswith(str((REPO / 'src').resolve())):
        raise SystemExit(f'mccode_antlr imported from {got}, not from {REPO}')
