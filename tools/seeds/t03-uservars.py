PROPERTY = 'T03'
NEEDS = 'several user variables, in processes with different hash seeds'
BREAKS = 'the members of the particle, and the numbers of the user variables, are in another order'
EDITS = [('src/mccode_antlr/translators/c.py', '            uuv = list(dict.fromkeys(uuv))', '            uuv = list(set(uuv))')]
RUNTIME = True
DEMO = r'''import os, subprocess, sys
PROGRAM = """
from sim import read, code
i = read('DEFINE INSTRUMENT t(a=1) USERVARS %{ int first; double second; int third; %} TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE END',
         A='DEFINE COMPONENT A USERVARS %{ double u; int v; double w; %} TRACE %{ x += 1; %} END')
print(chr(10).join(l for l in code(i).splitlines() if 'Date' not in l and 'reated' not in l))
"""
out = []
for n in range(6):
    env = dict(os.environ, PYTHONHASHSEED=str(n), PYTHONPATH=os.environ['PYTHONPATH'] + ':' + os.path.dirname(os.path.abspath(__file__)))
    out.append(subprocess.run([sys.executable, '-c', PROGRAM], env=env, check=True, capture_output=True, text=True).stdout)
assert len(set(out)) == 1, f'{len(set(out))} different programs'
'''
