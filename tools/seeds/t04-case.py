PROPERTY = 'T04'
NEEDS = 'metadata of a component and of its instance, with names which differ only in case'
BREAKS = 'one of the two is missing in the running simulation'
EDITS = [('src/mccode_antlr/instr/instance.py', '        md = {m.name: m for m in self.type.collect_metadata()}\n        md.update({m.name: m for m in self.metadata})', '        md = {m.name.lower(): m for m in self.type.collect_metadata()}\n        md.update({m.name.lower(): m for m in self.metadata})')]
RUNTIME = True
DEMO = r'''from sim import read, simulate
i = read("""DEFINE INSTRUMENT t(a=1) TRACE COMPONENT x = A() AT (0,0,0) ABSOLUTE METADATA "text/plain" "note" %{two%} METADATA "text/plain" "Both" %{three%} END""", A='DEFINE COMPONENT A METADATA "text/plain" "Note" %{one%} METADATA "text/plain" "Both" %{zero%} TRACE %{ x = 1; %} END')
row = [l.split() for l in simulate(i, '-n1').splitlines() if l.startswith('@meta')]
text = sorted(bytes.fromhex(r[-1][1:]).decode() for r in row)
print(text)
assert text == ['one', 'three', 'two']
'''
