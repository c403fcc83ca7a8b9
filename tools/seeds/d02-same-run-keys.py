PROPERTY = 'D02'
NEEDS = 'three or more summaries with a detector that wrote no file'
BREAKS = 'its results are listed once per run, or not added'
EDITS = [('src/mccode_antlr/loader/simfile.py', '    data = {(d.component, d.filename): d for d in sims[0].data}', '    data = {(d.component, d.filename or d.type): d for d in sims[0].data}'), ('src/mccode_antlr/loader/simfile.py', '            key = (datum.component, datum.filename)\n            if key', '            key = (datum.component, datum.filename or datum.title)\n            if key')]
DEMO = r'''import sys
from pathlib import Path
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry

from mccode_antlr.loader.simfile import combine_mccode_sims, SimFile
DATA = 'begin data\n  Date: d (1)\n  type: array_0d\n  Source: s\n  component: c\n  position: 0 0 0\n  title: t\n  Ncount: 10\n  statistics: None\n  signal: None\n  values: 1 0.5 4\n  xylimits: 0 0 0 0 0 0\n  variables: I I_err N\nend data\n'
TEXT = 'McStas simulation description file for /x.\nDate: d (1)\nProgram: t\n\nbegin instrument: t\n  File: t\n  Source: t.instr\n  Parameters: a(double)\n  Trace_enabled: yes\n  Default_main: yes\n  Embedded_runtime: yes\nend instrument\n\nbegin simulation: t\n  Format: McCode with text headers\n  URL: http://www.mccode.org\n  Creator: c\n  Instrument: t.instr\n  Ncount: 10\n  Trace: no\n  Gravitation: no\n  Seed: %d\n  Directory: d%d\n  Param: a=1\nend simulation\n\n' + DATA
sims = [SimFile.parse(TEXT % (k, k)) for k in (1, 2, 3)]
out = combine_mccode_sims(sims)
print(len(out.data), [d.values for d in out.data])
assert len(out.data) == 1 and float(out.data[0].values.split()[0]) == 3
'''
