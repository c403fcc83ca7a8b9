PROPERTY = 'B01'
NEEDS = 'a target which uses MPI and NeXus'
BREAKS = 'it is compiled without the flags which NeXus needs'
EDITS = [('src/mccode_antlr/compiler/c.py', "        if self.type & CBinaryTarget.Type.nexus:\n            extras", "        elif self.type & CBinaryTarget.Type.nexus:\n            extras")]
DEMO = r'''from mccode_antlr.compiler.c import CBinaryTarget
from mccode_antlr.config import config
nexus = config['flags']['nexus'].as_str_expanded().split()
for mpi in (False, True):
    for acc in (False, True):
        flags = CBinaryTarget(mpi=mpi, acc=acc, count=2, nexus=True).extra_flags
        print(mpi, acc, flags)
        assert flags[len(flags) - len(nexus):] == nexus and nexus
'''
