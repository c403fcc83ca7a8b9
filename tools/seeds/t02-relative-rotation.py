PROPERTY = 'T02'
NEEDS = 'a component placed RELATIVE to one instance and ROTATED RELATIVE to a different, rotated one'
BREAKS = 'its position is turned by the wrong rotation'
EDITS = [('src/mccode_antlr/translators/c_initialise.py', "            f'    rot_transpose(_{rel.name}_var._rotation_absolute, tr1);',\n            '    tc2 = rot_apply(tr1, tc1);',", "            f'    rot_transpose(_{(comp.rotate_relative[1] or rel).name}_var._rotation_absolute, tr1);',\n            '    tc2 = rot_apply(tr1, tc1);',")]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
def read(text, name='t.instr', **comps):
    Path(name).write_text(text)
    memory = InMemoryRegistry('m', **comps)
    for stub in ('mccode-r.h', 'mccode-r.c', 'mcstas-r.h', 'mcstas-r.c', 'mccode_main.c', 'metadata-r.c'):
        Path('stubs').mkdir(exist_ok=True)
        Path('stubs', stub).write_text('/* nothing */')
    return Reader(registries=[memory, LocalRegistry('stubs', str(Path('stubs').resolve()))]).get_instrument(Path(name).resolve())
def code(instr, **config):
    from mccode_antlr.translators.c import CTargetVisitor
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    config = dict(dict(default_main=True, enable_trace=False, portable=False, include_runtime=False, embed_instrument_file=False, verbose=False, output=None), **config)
    return CTargetVisitor(instr, generate=MCSTAS_GENERATOR, config=config).contents()

i = read('DEFINE INSTRUMENT t() TRACE COMPONENT a = A() AT (0,0,0) ABSOLUTE ROTATED (0,30,0) ABSOLUTE COMPONENT b = A() AT (0,0,1) ABSOLUTE COMPONENT c = A() AT (0,0,2) RELATIVE a ROTATED (0,0,0) RELATIVE b END', A='DEFINE COMPONENT A TRACE %{ %} END')
text = code(i)
part = text[text.index('int _c_setpos(void)'):]
part = part[part.index('coords_set('):]
line = next(l for l in part.splitlines() if 'rot_transpose' in l)
print(line)
assert '_a_var._rotation_absolute' in line
'''
