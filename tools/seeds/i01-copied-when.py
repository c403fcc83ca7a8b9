PROPERTY = 'I01'
NEEDS = 'an instance which is a COPY of one that has a WHEN and is in a GROUP'
BREAKS = 'the copy is not part of the GROUP'
EDITS = [('src/mccode_antlr/instr/instance.py', 'when=ref.when, group=ref.group,\n                   extend', 'when=ref.when, group=ref.group if ref.when is None else None,\n                   extend')]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
def read(text, name='t.instr', **comps):
    Path(name).write_text(text)
    return Reader(registries=[InMemoryRegistry('m', **comps)]).get_instrument(Path(name).resolve())

i = read('DEFINE INSTRUMENT t(a=1) TRACE COMPONENT x = A() WHEN (a > 0) AT (0,0,0) ABSOLUTE GROUP g COMPONENT y = COPY(x) AT (0,0,1) ABSOLUTE END', A='DEFINE COMPONENT A TRACE %{ %} END')
print([c.group for c in i.components])
assert [c.group for c in i.components] == ['g', 'g']
'''
