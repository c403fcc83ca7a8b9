PROPERTY = 'S01'
NEEDS = 'splitting with remove_unused_parameters where a parameter is used by nothing but the first component of a part'
BREAKS = 'the parameter is removed although the part uses it'
EDITS = [('src/mccode_antlr/instr/instr.py', "        for instance in self.components:\n            if instance.parameter_used(name):\n                return True", "        for instance in self.components[1:]:\n            if instance.parameter_used(name):\n                return True")]
DEMO = r'''from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
Path('t.instr').write_text("""DEFINE INSTRUMENT t(a=1, b=2, c=3) TRACE
COMPONENT x = A(q=c) AT (0, 0, 0) ABSOLUTE
COMPONENT y = A(q=a) AT (0, 0, 1) RELATIVE x
COMPONENT z = A() AT (0, 0, b) RELATIVE y
END""")
i = Reader(registries=[InMemoryRegistry('m', A='DEFINE COMPONENT A SETTING PARAMETERS (q=0) TRACE %{ %} END')]).get_instrument(Path('t.instr').resolve())
one, two = i.split('y', remove_unused_parameters=True)
names = [[p.name for p in part.parameters] for part in (one, two)]
print(names)
assert names == [['a', 'c'], ['a', 'b']], names
'''
