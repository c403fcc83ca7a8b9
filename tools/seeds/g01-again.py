PROPERTY = 'G01'
NEEDS = 'an instrument which SEARCHes two folders, and the first one of them again'
BREAKS = 'only the first registry is compared to a SEARCHed folder, so that a known one is moved before the others'
EDITS = [('src/mccode_antlr/reader/reader.py', 'if not any(registries_match(reg, spec) for reg in self.registries):', 'if not any(registries_match(reg, spec) for reg in self.registries[:1]):')]
DEMO = r'''from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry

here = Path('.').resolve()
for i, f in enumerate('ab'):
    (here / f).mkdir()
    (here / f / 'T.comp').write_text(f'DEFINE COMPONENT T SETTING PARAMETERS (from_{f}=1) TRACE %{{ %}} END')
text = 'DEFINE INSTRUMENT t() TRACE ' + ' '.join(f'SEARCH "{here / f}"' for f in 'aba') + ' COMPONENT x = T() AT (0,0,0) ABSOLUTE END'
(here / 't.instr').write_text(text)
instr = Reader(registries=[InMemoryRegistry('m')]).get_instrument(here / 't.instr')
names = [p.name for p in instr.components[0].type.setting]
print(names)
assert names == ['from_b']
'''
