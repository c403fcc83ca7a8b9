PROPERTY = 'T01'
NEEDS = 'a simulation compiled for several processes, more than one particle, one of the later processes'
BREAKS = 'particles of different processes have the same number'
EDITS = [('src/mccode_antlr/translators/c_raytrace.py', '''        "      particleN._uid += mpi_node_rank * ncount;",''', '''        "      particleN._uid += mpi_node_rank;",''')]
RUNTIME = True
DEMO = r'''from pathlib import Path
import subprocess
from sim import read, code
i = read('DEFINE INSTRUMENT t(a=1) TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE END', A='DEFINE COMPONENT A TRACE %{ printf("uid %lld\\n", _particle->_uid); %} END')
Path('sim.c').write_text(code(i))
seen = []
for rank in range(3):
    subprocess.run(['gcc', '-std=gnu99', '-w', '-DUSE_MPI', f'-Dmpi_node_rank={rank}', '-o', 'sim', 'sim.c', '-lm'], check=True)
    out = subprocess.run(['./sim', '-n3'], check=True, capture_output=True, text=True).stdout
    seen += [int(l.split()[1]) for l in out.splitlines() if l.startswith('uid')]
print(seen)
assert sorted(seen) == list(range(9))
'''
