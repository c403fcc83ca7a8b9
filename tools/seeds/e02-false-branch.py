PROPERTY = 'E02'
NEEDS = 'simplifying a ternary whose condition is known and false'
BREAKS = 'a ternary with a known false condition is replaced by the value for true'
F = 'src/mccode_antlr/common/expression.py'
EDITS = [(F, "            if f[0].is_value(False) and not f[0].is_value(True):\n                return Expr(t)",
             "            if f[0].is_value(False) and not f[0].is_value(True):\n                return Expr(s)")]
DEMO = '''
from mccode_antlr.common import Expr
v = Expr.parse('(a) ? b : c').evaluate({'a': Expr.int(0), 'b': Expr.int(3), 'c': Expr.int(5)})
print(v)
w = Expr.parse('a ? b : c').evaluate({'a': Expr.int(0)}).simplify()
print(w)
assert 'b' not in str(w) or '?' in str(w), w
assert str(w) in ('c', '0 ? b : c'), w
'''
