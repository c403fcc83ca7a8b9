PROPERTY = 'O01'
NEEDS = 'a component rotated by more than half a turn'
BREAKS = 'the sine of an angle beyond 180 degrees has the wrong sign, so the orientation is not a rotation by that angle'
F = 'src/mccode_antlr/instr/orientation.py'
EDITS = [(F, "    from math import pi, sin\n    return sin(theta_degree / 180 * pi)",
             "    from math import pi, sin, fmod\n    return sin(fmod(theta_degree, 180) / 180 * pi)")]
DEMO = '''
from mccode_antlr.instr.orientation import Angles, Orient, Vector
from mccode_antlr.common import Expr
f = Expr.float
z = f(0)
a = Orient.from_dependent_orientations(None, Vector(z, z, z), None, Angles(z, f(270), z))
b = Orient.from_dependent_orientations(a, Vector(z, z, f(2)), a, Angles(z, z, z))
x = float(str(b.position().x))
print(x)
assert abs(x + 2) < 1e-9, x
'''
