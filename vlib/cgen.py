"""Generated simulations: translated, compiled with gcc against a small runtime, and run."""
import contextlib
import io
import os
import shutil
import subprocess
import tempfile
from pathlib import Path

from vlib import engine

RUNTIME = Path(__file__).resolve().parent / 'runtime'


class CompileError(Exception):
    pass


class RunError(Exception):
    pass


def registry():
    from mccode_antlr.reader.registry import LocalRegistry
    return LocalRegistry('libc-verif', str(RUNTIME), priority=1000)


def visitor(instr, mcstas=True, **config):
    from mccode_antlr.translators.c import CTargetVisitor
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    conf = dict(default_main=True, enable_trace=True, portable=True, include_runtime=True, embed_instrument_file=False,
                verbose=False, output='verif.c', flavor='mcstas' if mcstas else 'mcxtrace')
    conf.update(config)
    if not any(r.name == 'libc-verif' for r in instr.registries):
        instr.registries = tuple(instr.registries) + (registry(),)
    return CTargetVisitor(instr, generate=MCSTAS_GENERATOR if mcstas else MCXTRACE_GENERATOR, config=conf, verbose=False)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(out):
        yield out


def source(instr, mcstas=True, **config):
    with quiet():
        return visitor(instr, mcstas, **config).contents()


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.TemporaryDirectory(dir=base, prefix='verif-')


def compile_(text, folder, flags=(), name='sim', opt='-O0'):
    c = Path(folder, name + '.c')
    c.write_text(text, encoding='utf-8', errors='surrogateescape')
    exe = Path(folder, name)
    gcc = shutil.which('gcc')
    if not gcc:
        raise engine.HarnessError('gcc is missing')
    r = subprocess.run([gcc, '-std=gnu99', opt, '-w', '-fno-diagnostics-color', *flags, '-o', str(exe), str(c), '-lm'],
                       capture_output=True, text=True, errors='replace')
    if r.returncode:
        raise CompileError('\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:1500] or r.stderr[-1500:])
    return exe


def run(exe, args=(), timeout=20):
    try:
        r = subprocess.run([str(exe), *args], capture_output=True, timeout=timeout, cwd=str(Path(exe).parent))
    except subprocess.TimeoutExpired:
        raise RunError('the simulation does not end')
    if r.returncode:
        raise RunError(f'the simulation ends with {r.returncode}: {r.stderr[-300:]}')
    return r.stdout.decode('utf-8', errors='surrogateescape')


def simulate(instr, args=(), mcstas=True, flags=(), **config):
    text = source(instr, mcstas, **config)
    with scratch() as d:
        return run(compile_(text, d, flags), args)
