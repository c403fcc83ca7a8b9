PROPERTY = 'P01'
NEEDS = 'a component definition with the same name as definition and as setting parameter'
BREAKS = 'the definition is accepted'
EDITS = [('src/mccode_antlr/comp/comp.py', '        if parameter_name_present(self.define, name):\n            raise RuntimeError(f"{parameter_type} parameter', '        if parameter_type == \'DEFINE\' and parameter_name_present(self.define, name):\n            raise RuntimeError(f"{parameter_type} parameter')]
DEMO = r'''from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
reader = Reader(registries=[InMemoryRegistry('m', A='DEFINE COMPONENT A DEFINITION PARAMETERS (p=1) SETTING PARAMETERS (q=1, p=2) TRACE %{ x = 1; %} END',
                                             B='DEFINE COMPONENT B DEFINITION PARAMETERS (p=1) SETTING PARAMETERS (q=1) TRACE %{ x = 1; %} END')])
assert [p.name for p in reader.get_component('B').setting] == ['q']
try:
    a = reader.get_component('A')
except RuntimeError as e:
    print(e)
else:
    assert False, f'{a.define} {a.setting}'
'''
