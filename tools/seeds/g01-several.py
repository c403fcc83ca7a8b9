PROPERTY = 'G01'
NEEDS = 'a local library with two files of one name in different folders'
BREAKS = 'one of the two files is taken silently, whichever the file system lists first'
EDITS = [('src/mccode_antlr/reader/registry.py', '''under {self.root}')
        if len(matches) != 1:
            raise RuntimeError(f'More than one match for {name}:{ext}, which is required of:\\n{matches}')
        return matches[0]
''', '''under {self.root}')
        return matches[0]
''')]
DEMO = r'''from pathlib import Path
from mccode_antlr.reader.registry import LocalRegistry

here = Path('lib').resolve()
for f in ('optics', 'obsolete'):
    (here / f).mkdir(parents=True)
    (here / f / 'T.comp').write_text(f'DEFINE COMPONENT T SETTING PARAMETERS (from_{f}=1) TRACE %{{ %}} END')
try:
    path = LocalRegistry('l', str(here)).path('T', '.comp')
except RuntimeError as e:
    print('refused', e)
else:
    raise SystemExit(f'{path} was taken')
'''
