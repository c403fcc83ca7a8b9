PROPERTY = 'O02'
NEEDS = 'inverting a placement with both a rotation and a translation'
BREAKS = 'the translation of an inverted Seitz matrix is not rotated'
F = 'src/mccode_antlr/instr/orientation.py'
EDITS = [(F, "        neg_inv_t = inv_r * self.vector()", "        neg_inv_t = self.vector()")]
DEMO = '''
from mccode_antlr.instr.orientation import Angles, Rotation, Seitz, Vector
from mccode_antlr.common import Expr
f = Expr.float
r = Rotation.from_angles(Angles(f(0), f(90), f(0)))
m = Seitz.from_vector(Vector(f(1), f(2), f(3))) * Seitz.from_rotation(r)
i = m * m.inverse()
v = [float(str(x)) for x in i.vector()]
print(v)
assert all(abs(x) < 1e-9 for x in v), v
'''
