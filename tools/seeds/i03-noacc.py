PROPERTY = 'I03'
NEEDS = 'storing an instrument with a component marked NOACC'
BREAKS = 'the mark is lost in the file, and the loaded component runs on the GPU'
EDITS = [('src/mccode_antlr/io/hdf5.py', "attrs=('name', 'category', 'dependency', 'acc')", "attrs=('name', 'category', 'dependency')")]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
def read(text, name='t.instr', **comps):
    Path(name).write_text(text)
    return Reader(registries=[InMemoryRegistry('m', **comps)]).get_instrument(Path(name).resolve())

from mccode_antlr.io import save_hdf5, load_hdf5
i = read('DEFINE INSTRUMENT t() TRACE COMPONENT a = A() AT (0,0,0) ABSOLUTE END', A='DEFINE COMPONENT A NOACC TRACE %{ %} END')
save_hdf5(i, 't.h5')
j = load_hdf5('t.h5')
print(i.components[0].type.acc, j.components[0].type.acc)
assert j.components[0].type.acc == i.components[0].type.acc
'''
