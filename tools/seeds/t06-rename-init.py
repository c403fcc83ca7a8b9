PROPERTY = 'T06'
NEEDS = 'a declaration with an initial value which is renamed'
BREAKS = 'the renamed declaration has no initial value'
EDITS = [('src/mccode_antlr/translators/c_listener.py', '            init=self.init,\n        )', '            init=self.init if suffix is None else None,\n        )')]
DEMO = r'''from mccode_antlr.translators.c_listener import extract_c_declared_variables
for d in extract_c_declared_variables('int a = 3, *b; double c[2] = {1, 2};'):
    e = d.copy(suffix='7')
    print(d, '->', e, e.init)
    assert e.name == d.name + '_7' and e.init == d.init and e.elements == d.elements and e.dtype == d.dtype
'''
