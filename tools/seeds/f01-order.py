PROPERTY = 'F01'
NEEDS = 'a CMD() with an ENV() in its command'
BREAKS = 'the command is run before the variable is replaced'
EDITS = [('src/mccode_antlr/instr/instr.py', "        for key, worker in zip(['ENV', 'GETPATH', 'CMD'], [eval_env, getpath, eval_cmd]):", "        for key, worker in zip(['GETPATH', 'CMD', 'ENV'], [getpath, eval_cmd, eval_env]):")]
DEMO = r'''import os
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
os.environ['DEMO_DIRECTORY'] = '/opt/demo'
Path('t.instr').write_text('DEFINE INSTRUMENT t(a=1) DEPENDENCY "-I ENV(DEMO_DIRECTORY)/include CMD(echo -L ENV(DEMO_DIRECTORY)/lib) -lm" TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE END')
i = Reader(registries=[InMemoryRegistry('m', A='DEFINE COMPONENT A TRACE %{ x = 1; %} END')]).get_instrument(Path('t.instr').resolve())
try:
    flags = ' '.join(i.decoded_flags())
except Exception as e:
    flags = repr(e)
print(flags)
assert '-I /opt/demo/include -L /opt/demo/lib -lm' in flags
'''
