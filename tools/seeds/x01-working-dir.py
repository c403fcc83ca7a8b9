PROPERTY = 'X01'
NEEDS = 'an instrument file which is not in the current folder, and components in both its folder and the current one'
BREAKS = 'components are taken from the folder of the instrument file, not from the working directory'
EDITS = [('src/mccode_antlr/cli/commands.py', "LocalRegistry('working_directory', f'{Path().resolve()}')", "LocalRegistry('working_directory', f'{args.filename.resolve().parent}')")]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry

from mccode_antlr.cli.commands import mccode
from mccode_antlr.reader.registry import LocalRegistry
from mccode_antlr.translators.target import MCSTAS_GENERATOR
Path('lib').mkdir(); Path('sub').mkdir()
for stub in ('mccode-r.h', 'mccode-r.c', 'mcstas-r.h', 'mcstas-r.c', 'mccode_main.c', 'metadata-r.c'):
    Path('lib', stub).write_text('/* nothing */')
Path('A.comp').write_text('DEFINE COMPONENT A TRACE %{ int here_working; %} END')
Path('sub/A.comp').write_text('DEFINE COMPONENT A TRACE %{ int here_sub; %} END')
Path('sub/t.instr').write_text('DEFINE INSTRUMENT t() TRACE COMPONENT a = A() AT (0,0,0) ABSOLUTE END')
sys.argv = ['mcstas-antlr', 'sub/t.instr', '-o', 'o.c', '--no-runtime']
mccode('mcstas', LocalRegistry('lib', str(Path('lib').resolve()), priority=-10), MCSTAS_GENERATOR)
text = Path('o.c').read_text()
assert 'here_working' in text and 'here_sub' not in text
'''
