PROPERTY = 'C01'
NEEDS = 'a component which copies the DISPLAY of another and EXTENDs it, where the other has no DISPLAY of its own'
BREAKS = 'the added DISPLAY code is lost'
EDITS = [('src/mccode_antlr/comp/visitor.py', 'blocks = self.parent.get_component(str(ctx.Identifier())).display\n        if ctx.Extend() is not None:', 'blocks = self.parent.get_component(str(ctx.Identifier())).display\n        if ctx.Extend() is not None and len(blocks):')]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
def read(text, name='t.instr', **comps):
    Path(name).write_text(text)
    return Reader(registries=[InMemoryRegistry('m', **comps)]).get_instrument(Path(name).resolve())

i = read('DEFINE INSTRUMENT t() TRACE COMPONENT b = B() AT (0,0,0) ABSOLUTE END', A='DEFINE COMPONENT A TRACE %{ %} END', B='DEFINE COMPONENT B DISPLAY COPY A EXTEND %{ line(0,0,0,1,1,1); %} END')
b = i.components[0].type
print(b.display)
assert len(b.display) == 1 and 'line(0,0,0,1,1,1)' in b.display[0].source
'''
