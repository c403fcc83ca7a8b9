PROPERTY = 'R02'
NEEDS = 'a dry run of a scan with more than one point'
BREAKS = 'all points but the first are simulated'
EDITS = [('src/mccode_antlr/run/runner.py', '            r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)', '            r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run and number < 1)')]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry

from mccode_antlr.run.runner import mccode_run_scan
from mccode_antlr.run.range import MRange
from mccode_antlr.compiler.c import CBinaryTarget
import os
b = Path('prog').resolve()
b.write_text('#!/bin/sh\necho run >> "%s/ran"\n' % b.parent)
b.chmod(0o755)
try:
    mccode_run_scan('t', b, CBinaryTarget(mpi=False, acc=False, count=1, nexus=False), {'a': MRange(1, 3, 1)}, Path('out'), False, dry_run=True)
except Exception as e:
    print(repr(e))
print(Path('ran').exists())
assert not Path('ran').exists()
'''
