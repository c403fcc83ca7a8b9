PROPERTY = 'I01'
NEEDS = 'an instrument with USERVARS which includes two instruments with USERVARS'
BREAKS = 'the particle variables of the including instrument no longer come first'
EDITS = [('src/mccode_antlr/instr/visitor.py', 'self.state.user += instr.user', 'self.state.user = self.state.user[:1] + instr.user + self.state.user[1:]')]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry

for n in 'ab':
    Path(f'{n}.instr').write_text(f'DEFINE INSTRUMENT {n}() USERVARS %{{ int u{n}; %}} TRACE COMPONENT c{n} = A() AT (0,0,0) ABSOLUTE END')
from mccode_antlr.reader.registry import LocalRegistry
Path('t.instr').write_text('DEFINE INSTRUMENT t() USERVARS %{ int u; %} TRACE %include "a.instr" %include "b.instr" END')
i = Reader(registries=[InMemoryRegistry('m', A='DEFINE COMPONENT A TRACE %{ %} END'), LocalRegistry('w', str(Path().resolve()))]).get_instrument(Path('t.instr').resolve())
got = [x.source.strip() for x in i.user]
print(got)
assert got == ['int u;', 'int ua;', 'int ub;'], got
'''
