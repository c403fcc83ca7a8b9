PROPERTY = 'M01'
NEEDS = 'an empty answer to the question whether to remove a cache'
BREAKS = 'the cache is removed, no is the default'
EDITS = [('src/mccode_antlr/cli/management.py', "        if 'yes' == response.lower() or 'y' == response.lower():", "        if response.lower() in 'yes':")]
DEMO = r'''import builtins, os, sys
from pathlib import Path
from mccode_antlr.cli.management import mccode_management, cache_path
from contextlib import redirect_stdout
import io
for answer, gone in (('', False), ('n', False), ('y', True), ('Yes', True)):
    folder = Path(cache_path()) / 'demo' / 'v1'
    assert os.environ['XDG_CACHE_HOME'] in str(folder)
    folder.mkdir(parents=True)
    builtins.input = lambda *a: answer
    sys.argv = ['mccode-antlr', 'cache', 'remove', 'demo', 'v1']
    mccode_management()
    print(repr(answer), folder.exists())
    assert folder.exists() is not gone
    if not gone:
        folder.rmdir()
'''
