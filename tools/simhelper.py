"""For demonstrations: read an instrument, translate it, compile it against the small runtime beside this file, and run it."""
import contextlib, io, subprocess
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
RUNTIME = Path(__file__).resolve().parent / 'runtime'
def read(text, name='t.instr', files=None, **comps):
    Path(name).write_text(text)
    registries = [InMemoryRegistry('m', **comps), LocalRegistry('runtime', str(RUNTIME))]
    if files:
        Path('files').mkdir(exist_ok=True)
        for n, t in files.items():
            Path('files', n).write_text(t)
        registries.append(LocalRegistry('files', str(Path('files').resolve())))
    return Reader(registries=registries).get_instrument(Path(name).resolve())
def code(instr, mcstas=True, **config):
    from mccode_antlr.translators.c import CTargetVisitor
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    config = dict(dict(default_main=True, enable_trace=True, portable=True, include_runtime=True, embed_instrument_file=False, verbose=False, output=None), **config)
    with contextlib.redirect_stdout(io.StringIO()):
        return CTargetVisitor(instr, generate=MCSTAS_GENERATOR if mcstas else MCXTRACE_GENERATOR, config=config).contents()
def simulate(instr, *args, mcstas=True):
    Path('sim.c').write_text(code(instr, mcstas))
    subprocess.run(['gcc', '-std=gnu99', '-w', '-o', 'sim', 'sim.c', '-lm'], check=True)
    return subprocess.run(['./sim', *args], check=True, capture_output=True, text=True).stdout
