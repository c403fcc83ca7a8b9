PROPERTY = 'T01'
NEEDS = 'a SPLIT before a component which draws random numbers'
BREAKS = 'all particles of a split have the same random numbers'
EDITS = [('src/mccode_antlr/translators/c_raytrace.py', "                '    *_particle->randstate = randbackup;',\n", '')]
RUNTIME = True
DEMO = r'''from sim import read, simulate
i = read("""DEFINE INSTRUMENT t(a=1) TRACE
COMPONENT first = A() AT (0,0,0) ABSOLUTE
SPLIT 3 COMPONENT second = A() AT (0,0,1) ABSOLUTE END""", A="""DEFINE COMPONENT A TRACE %{
  printf("random %lu\\n", *_particle->randstate);
  *_particle->randstate = *_particle->randstate * 6364136223846793005UL + 1442695040888963407UL;
%} END""")
drawn = [x for x in simulate(i, '-n1').splitlines() if x.startswith('random')]
print(drawn)
assert len(drawn) == 4 and len(set(drawn)) == 4
'''
