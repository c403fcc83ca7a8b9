PROPERTY = 'G01'
NEEDS = 'a component whose own name has a dot in it'
BREAKS = 'a name with another extension counts as a full file name, and is not found or a different file is'
EDITS = [('src/mccode_antlr/reader/registry.py', 'if suffix is not None and path.suffix != suffix:', 'if suffix is not None and not path.suffix:')]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry

from mccode_antlr.reader.registry import LocalRegistry
Path('lib').mkdir()
Path('lib/My.v2.comp').write_text('DEFINE COMPONENT My END')
r = LocalRegistry('l', str(Path('lib').resolve()))
print(r.known('My.v2', '.comp'))
assert r.known('My.v2', '.comp')
assert Path(r.path('My.v2', '.comp')).read_text().startswith('DEFINE')
'''
