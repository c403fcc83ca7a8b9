PROPERTY = 'I02'
NEEDS = 'two code blocks of one kind, of which the first ends with a comment or a preprocessor line'
BREAKS = 'the printed block has both in one line, so that the second is part of the comment'
EDITS = [('src/mccode_antlr/instr/instr.py', "    return '\\n'.join([str(rc) for rc in rawc_tuple])", "    return ' '.join([str(rc) for rc in rawc_tuple])")]
DEMO = r'''from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
def read(name):
    return Reader(registries=[InMemoryRegistry('m', A='DEFINE COMPONENT A TRACE %{ x = 1; %} END')]).get_instrument(Path(name).resolve())
Path('part.instr').write_text('DEFINE INSTRUMENT part(b=1) DECLARE %{int two;%} TRACE COMPONENT y = A() AT (0,0,0) ABSOLUTE END')
Path('t.instr').write_text('DEFINE INSTRUMENT t(a=1) DECLARE %{int one; // the first%} TRACE %include "part.instr" COMPONENT x = A() AT (0,0,0) ABSOLUTE END')
text = str(read('t.instr'))
Path('again.instr').write_text(text)
import re
code = '\n'.join(str(b.source) for b in read('again.instr').declare)
code = re.sub('//.*', '', code)
print(code)
assert 'int one;' in code and 'int two;' in code
'''
