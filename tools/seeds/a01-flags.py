PROPERTY = 'A01'
NEEDS = 'an assembled instrument with a component type which copies another, both with a DEPENDENCY'
BREAKS = 'the flags of all but the last component read are lost'
EDITS = [('src/mccode_antlr/assembler/assembler.py', 'unique_flags.extend(self.reader.c_flags)', 'unique_flags.extend(self.reader.c_flags[-1:])')]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry

from mccode_antlr.assembler import Assembler
comps = {'A': 'DEFINE COMPONENT A DEPENDENCY "-DA" TRACE %{ %} END', 'B': 'DEFINE COMPONENT B COPY A DEPENDENCY "-DB" END'}
a = Assembler('t', registries=[InMemoryRegistry('m', **comps)])
a.component('y', 'B', at=(0, 0, 1))
i = a.instrument
print(i.flags)
assert any('-DA' in f for f in i.flags) and any('-DB' in f for f in i.flags), i.flags
'''
