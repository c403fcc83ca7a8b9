PROPERTY = 'T05'
NEEDS = 'a file, named with its extension, which includes a library'
BREAKS = 'the library is not found, its directive stays in the code'
EDITS = [('src/mccode_antlr/translators/c.py', '        if count:\n            found_includes', '        if count > 1:\n            found_includes')]
RUNTIME = True
DEMO = r'''from sim import read, code
i = read('DEFINE INSTRUMENT t(a=1) TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE END', files={'part.h': 'int part;\n%include "helper"\n', 'helper.h': 'int helper_declared(int);\n', 'helper.c': 'int helper_defined(int a) { return a; }\n'},
         A='DEFINE COMPONENT A SHARE %{\n%include "part.h"\n%} TRACE %{ x = 1; %} END')
text = code(i)
print(text.count('int part;'), text.count('helper_declared'), text.count('helper_defined'))
assert [text.count(x) for x in ('int part;', 'int helper_declared', 'int helper_defined', chr(10) + '%include')] == [1, 1, 1, 0]
'''
