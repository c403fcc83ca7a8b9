PROPERTY = 'T07'
NEEDS = 'a user variable of the instrument with the name which one of a component gets, and another type'
BREAKS = 'the two declarations are not refused'
EDITS = [('src/mccode_antlr/translators/c.py', '        nd = set([x for dec in comp_declares.values() for x in dec]).union(declares)', '        nd = set([x for dec in comp_declares.values() for x in dec])')]
RUNTIME = True
DEMO = r'''from sim import read, code
A = 'DEFINE COMPONENT A USERVARS %{ double flag; %} TRACE %{ x += 1; %} END'
TEXT = 'DEFINE INSTRUMENT t(a=1) USERVARS %%{ int flag_%d; %%} TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE COMPONENT y = A() AT (0,0,1) ABSOLUTE END'
code(read(TEXT % 3, A=A))
try:
    code(read(TEXT % 2, A=A))
except RuntimeError as e:
    print(e)
else:
    assert False, 'int flag_2 and double flag_2 are both members of the particle'
'''
