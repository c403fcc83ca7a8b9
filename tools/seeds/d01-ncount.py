PROPERTY = 'D01'
NEEDS = 'more simulated particles in all than a double can hold exactly'
BREAKS = 'the combined number of particles is not the sum'
EDITS = [('src/mccode_antlr/loader/datfile.py', '            c[k] = int(c[k]) + int(v)', '            c[k] = int(float(c[k]) + float(v))')]
DEMO = r'''from pathlib import Path
from mccode_antlr.loader.datfile import read_mccode_dat, combine_mccode_dats
TEXT = """# Format: McCode with text headers
# URL: http://www.mccode.org
# Creator: McStas
# Instrument: demo.instr
# Ncount: %d
# Trace: no
# Gravitation: no
# Seed: %d
# Directory: %s
# Param: a=1
# Date: today
# type: array_1d(3)
# Source: demo
# component: mon
# position: 0 0 1
# title: a
# Ncount: %d
# filename: mon.dat
# statistics: none
# signal: none
# values: 6 1 3
# xvar: x
# yvar: (I,I_err)
# xlabel: x [m]
# ylabel: I
# xlimits: 0 1
# variables: x I I_err N
0 1 0.5 1
0.5 2 0.5 1
1 3 0.5 1
"""
counts = [2**53 + 1, 2**40 + 2]
dats = []
for k, n in enumerate(counts):
    Path(f'{k}').mkdir()
    Path(f'{k}/mon.dat').write_text(TEXT % (n, k + 1, k, n))
    dats.append(read_mccode_dat(f'{k}/mon.dat'))
both = combine_mccode_dats(dats)
print(both.metadata['Ncount'], sum(counts))
assert int(both.metadata['Ncount']) == sum(counts)
'''
