PROPERTY = 'T07'
NEEDS = 'a McXtrace simulation in which the phase of a restored particle was changed'
BREAKS = 'the phase keeps its changed value'
EDITS = [('src/mccode_antlr/translators/c_particle.py', "    members = z + a + b + (('t', 'double'), ('p', 'double'),)\n    return {k: v for k, v in members}", "    members = z + a[:3] + b + (('t', 'double'), ('p', 'double'),)\n    return {k: v for k, v in members}")]
DEMO = r'''from pathlib import Path
import re, subprocess
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
Path('stubs').mkdir()
for stub in ('mccode-r.h', 'mccode-r.c', 'mcxtrace-r.h', 'mcxtrace-r.c', 'mccode_main.c', 'metadata-r.c'):
    Path('stubs', stub).write_text('/* nothing */')
Path('t.instr').write_text('DEFINE INSTRUMENT t(a=1) TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE END')
i = Reader(registries=[InMemoryRegistry('m', A='DEFINE COMPONENT A TRACE %{ p = 1; %} END'), LocalRegistry('stubs', str(Path('stubs').resolve()))]).get_instrument(Path('t.instr').resolve())
from mccode_antlr.translators.c import CTargetVisitor
from mccode_antlr.translators.target import MCXTRACE_GENERATOR
text = CTargetVisitor(i, generate=MCXTRACE_GENERATOR, config=dict(default_main=True, enable_trace=False, portable=False, include_runtime=False, embed_instrument_file=False, verbose=False, output=None)).contents()
# the function which restores a particle, in a program of its own
m = re.search(r'particle_restore\s*\(([^)]*)\)\s*\{', text)
depth, end = 1, m.end()
while depth:
    depth += {'{': 1, '}': -1}.get(text[end], 0)
    end += 1
names = 'x y z kx ky kz phi Ex Ey Ez t p'.split()
program = 'typedef struct { double ' + ', '.join(names) + '; long _restore, _scattered, _absorbed, _uid, _index; int flag_nocoordschange; } _class_particle;\n#include <stdio.h>\nvoid ' + text[m.start():end]
program += '\nint main(void) { _class_particle a = {0}, b = {0};\n' + ''.join(f'a.{n} = {k + 1}; b.{n} = -1;\n' for k, n in enumerate(names)) + 'particle_restore(&b, &a);\n' + ''.join(f'printf("%g ", b.{n});\n' for n in names) + 'return 0; }'
Path('r.c').write_text(program)
subprocess.run(['gcc', '-o', 'r', 'r.c'], check=True)
out = subprocess.run(['./r'], check=True, capture_output=True, text=True).stdout.split()
print(out)
assert out == [str(k + 1) for k in range(len(names))]
'''
