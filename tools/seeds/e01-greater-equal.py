PROPERTY = 'E01'
NEEDS = 'a greater-or-equal comparison of two equal values where an operand is an operation'
BREAKS = '>= of an operation is printed as > and is false for equal values'
F = 'src/mccode_antlr/common/expression.py'
EDITS = [(F, "            return f'{lstr}>={rstr}'", "            return f'{lstr}>{rstr}' if self.right[0].is_op else f'{lstr}>={rstr}'")]
DEMO = '''
from mccode_antlr.common import Expr
import subprocess, pathlib
for t in ('a >= (b + 1)', 'a >= b'):
    s = str(Expr.parse(t))
    print(s)
    pathlib.Path('x.c').write_text('#include <stdio.h>\\nint main(void){int a=3,b=2; printf("%d", (int)(' + s + ')); return 0;}')
    subprocess.run(['gcc', 'x.c', '-o', 'x'], check=True)
    out = subprocess.run(['./x'], capture_output=True, text=True).stdout
    assert out == '1', (s, out)
'''
