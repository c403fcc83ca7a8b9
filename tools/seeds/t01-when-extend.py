PROPERTY = 'T01'
NEEDS = 'a component with a WHEN and an EXTEND whose definition has no TRACE'
BREAKS = 'its EXTEND code runs whether or not the condition holds'
EDITS = [('src/mccode_antlr/translators/c_raytrace.py', "            if comp.when is not None:\n                lines.append(f'      if (({comp.when:p}))  // conditional WHEN execution')", "            if comp.when is not None and len(comp.type.trace):\n                lines.append(f'      if (({comp.when:p}))  // conditional WHEN execution')")]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
def read(text, name='t.instr', **comps):
    Path(name).write_text(text)
    memory = InMemoryRegistry('m', **comps)
    for stub in ('mccode-r.h', 'mccode-r.c', 'mcstas-r.h', 'mcstas-r.c', 'mccode_main.c', 'metadata-r.c'):
        Path('stubs').mkdir(exist_ok=True)
        Path('stubs', stub).write_text('/* nothing */')
    return Reader(registries=[memory, LocalRegistry('stubs', str(Path('stubs').resolve()))]).get_instrument(Path(name).resolve())
def code(instr, **config):
    from mccode_antlr.translators.c import CTargetVisitor
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    config = dict(dict(default_main=True, enable_trace=False, portable=False, include_runtime=False, embed_instrument_file=False, verbose=False, output=None), **config)
    return CTargetVisitor(instr, generate=MCSTAS_GENERATOR, config=config).contents()

import re
i = read('DEFINE INSTRUMENT t(a=1) TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE COMPONENT y = B() WHEN (a > 0.25) AT (0,0,1) ABSOLUTE EXTEND %{ p *= 2; %} END', A='DEFINE COMPONENT A TRACE %{ p = 1; %} END', B='DEFINE COMPONENT B FINALLY %{ int q = 0; %} END')
text = code(i)
n = len(re.findall(r'if\s*\(\(.*a\s*>\s*0?\.25', text))
print(n)
assert n >= 2, n   # the EXTEND block is conditional in the CPU and in the GPU ray trace
'''
