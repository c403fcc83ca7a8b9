PROPERTY = 'E03'
NEEDS = 'an instrument parameter used in the condition of a ternary expression'
BREAKS = 'parameters in the condition of a ? : expression are never marked, so the generated C does not prefix them'
F = 'src/mccode_antlr/common/expression.py'
EDITS = [(F, "        for lr in (self.first, self.second, self.third):\n            for x in lr:\n                x.verify",
             "        for lr in (self.second, self.third):\n            for x in lr:\n                x.verify")]
DEMO = '''
from mccode_antlr.common import Expr
e = Expr.parse('a > 1 ? b : c')
e.verify_parameters(['a', 'b'])
s = f'{e:p}'
print(s)
assert s.count('_instrument_var._parameters.') == 2, s
'''
